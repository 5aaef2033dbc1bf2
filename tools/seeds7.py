exec(open('/verif/tools/seeds1.py').read().split("S('unpack-signext-bytes'")[0])
CONF='''
cat > "$W/out/conf/dbccodeconf.h" <<'E'
#pragma once
#include <stdint.h>
typedef uint32_t ubitext_t; typedef int32_t bitext_t; typedef double sigfloat_t;
static inline uint8_t hash_(const uint8_t* d, unsigned n, uint32_t id) { uint8_t s = (uint8_t)(id ^ (id >> 8) ^ (id >> 16) ^ (id >> 24)); while (n--) s ^= n == 1 ? 0 : d[n]; return s; }
#define GetFrameHash(a,b,c,d,e) hash_((a),(b),(c))
typedef enum { XOR8 } methods_;
#ifdef TICK
extern uint32_t tick; 
#define GetSystemTick() tick
#endif
E
'''
HEAD='''
gen 'VERSION "1.0"
BU_: A B

'''

S('pack-phys-written-back','C38',[(MG,'''          sgs->msg.Signals[n].NameConv.c_str(), sgs->msg.Signals[n].NameFloat.c_str());
      }
    }
''','''          sgs->msg.Signals[n].NameConv.c_str(), sgs->msg.Signals[n].NameFloat.c_str());

        if (sgs->msg.Signals[n].IsDoubleSig && sgs->msg.Signals[n].LengthBit > 8)
        {
          // the struct shows the value which is really on the bus
          fwriter.Append("  _m->%s = (sigfloat_t)(%s_%s_fromS(_m->%s));",
            sgs->msg.Signals[n].NameFloat.c_str(), fdesc->gen.DRVNAME.c_str(),
            sgs->msg.Signals[n].NameConv.c_str(), sgs->msg.Signals[n].Name.c_str());
        }
      }
    }
''')],
 'a fractional signal of more than 8 bits with a physical value between two raw steps, packed with USE_SIGFLOAT',
 'Pack rounds the physical value of the application to the raw steps, which e.g. an integrator with small increments never gets over',
HEAD+r'''BO_ 100 M: 8 A
 SG_ V : 0|16@1+ (0.5,0) [0|0] "" B
' || fail gen'''+CONF+r'''
build '#include "drv.h"
int main(void){ M_t m={0}; uint8_t d[8],l,i; int k; for (k=0;k<20;k++){ m.V_phys+=0.125; Pack_M_drv(&m,d,&l,&i);} return m.V_phys!=2.5; }' -DDRV_USE_SIGFLOAT || fail build
"$W/prog" || fail "physical value changed by Pack"
''',['C38','C04'])

S('cycle-error-cleared','C38',[(MG,'''  fwriter.Append("  _m->mon1.frame_cnt++;");
''','''  fwriter.Append("  _m->mon1.frame_cnt++;");

  if (sgs->msg.Cycle > 0)
  {
    // a frame has come
    fwriter.Append("  _m->mon1.cycle_error = 0;");
  }

''')],
 'a message with a cycle time whose monitor flag the application has set, and a frame after it',
 'Unpack resets the cycle_error flag, which only the application writes, before the monitor callback could see it',
HEAD+r'''BO_ 100 M: 8 A
 SG_ V : 0|16@1+ (1,0) [0|0] "" B

BA_DEF_ BO_ "GenMsgCycleTime" INT 0 65535;
BA_DEF_DEF_ "GenMsgCycleTime" 0;
BA_ "GenMsgCycleTime" BO_ 100 50;
' || fail gen'''+CONF+r'''
build '#include "drv.h"
uint32_t tick=5;
int main(void){ M_t m={0}; uint8_t d[8]={1}; m.mon1.cycle_error=1; Unpack_M_drv(&m,d,8); return m.mon1.cycle_error!=1; }' -DDRV_USE_DIAG_MONITORS -DTICK || fail build
"$W/prog" || fail "cycle_error changed by Unpack"
''',['C38','C07'])

S('pack-moves-expectation','C38',[(MG,'''    fwriter.Append("  _m->%s = (_m->%s + 1) & (%s);", sgs->msg.RollSig->Name.c_str(),
      sgs->msg.RollSig->Name.c_str(), PrintRollMask(sgs->msg.RollSig).c_str());
''','''    fwriter.Append("  _m->%s = (_m->%s + 1) & (%s);", sgs->msg.RollSig->Name.c_str(),
      sgs->msg.RollSig->Name.c_str(), PrintRollMask(sgs->msg.RollSig).c_str());
    // keep both counters of the struct together
    fwriter.Append("#ifdef %s", fdesc->gen.usemon_def.c_str());
    fwriter.Append("  _m->%s_expt = (_m->%s + 1) & (%s);", sgs->msg.RollSig->Name.c_str(),
      sgs->msg.RollSig->Name.c_str(), PrintRollMask(sgs->msg.RollSig).c_str());
    fwriter.Append("#endif // %s", fdesc->gen.usemon_def.c_str());
''')],
 'a struct both packed and unpacked (gateway), whose packed counter differs from that of the received frames',
 'Pack moves the expected rolling counter of the receiver',
HEAD+r'''BO_ 100 M: 8 A
 SG_ V : 0|8@1+ (1,0) [0|0] "" B
 SG_ R : 8|4@1+ (1,0) [0|0] "" B

CM_ SG_ 100 R "<RollingCounter>";
' || fail gen'''+CONF+r'''
build '#include "drv.h"
uint32_t tick=5;
int main(void){ M_t m={0}; uint8_t d[8]={0},o[8],l,i; d[1]=7; Unpack_M_drv(&m,d,8); m.R=2; Pack_M_drv(&m,o,&l,&i); if (o[1]!=3) return 2; d[1]=8; Unpack_M_drv(&m,d,8); return m.mon1.roll_error!=0; }' -DDRV_USE_DIAG_MONITORS -DDRV_AUTO_ROLL -DTICK || fail build
"$W/prog" || fail "roll_error after Pack on the same struct"
''',['C38','C05'])

S('csm-cleared-without-auto','C38',[(MG,'''    // code for clearing checksum
    fwriter.Append("#ifdef %s", fdesc->gen.usecsm_def.c_str());''','''    // code for clearing checksum
    fwriter.Append("#if defined(%s) || defined(%s)", fdesc->gen.usecsm_def.c_str(), fdesc->gen.usesigfloat_def.c_str());''')],
 'a tagged checksum which the application computes itself (no AUTO_CSM) in a build with USE_SIGFLOAT',
 'Pack clears the checksum of the application',
HEAD+r'''BO_ 100 M: 8 A
 SG_ V : 0|8@1+ (0.5,0) [0|0] "" B
 SG_ C : 8|8@1+ (1,0) [0|0] "" B

CM_ SG_ 100 C "<Checksum:XOR8:3>";
' || fail gen'''+CONF+r'''
build '#include "drv.h"
int main(void){ M_t m={0}; uint8_t d[8],l,i; m.C=0x5a; Pack_M_drv(&m,d,&l,&i); return !(d[1]==0x5a && m.C==0x5a); }' -DDRV_USE_SIGFLOAT || fail build
"$W/prog" || fail "checksum of the application lost"
''',['C38','C02'])

S('no-conversion-with-counter','C38',[(MG,'''  if (sgs->msg.hasPhys)
  {
    // first step''','''  if (sgs->msg.hasPhys && sgs->msg.RollSig == nullptr)
  {
    // first step''')],
 'a message with a rolling counter and a scaled signal, packed with USE_SIGFLOAT',
 'Pack sends the stale raw value and takes no notice of the physical value',
HEAD+r'''BO_ 100 M: 8 A
 SG_ V : 0|8@1+ (0.5,0) [0|0] "" B
 SG_ R : 8|4@1+ (1,0) [0|0] "" B

CM_ SG_ 100 R "<RollingCounter>";
' || fail gen'''+CONF+r'''
build '#include "drv.h"
int main(void){ M_t m={0}; uint8_t d[8],l,i; m.V_phys=21; Pack_M_drv(&m,d,&l,&i); return d[0]!=42; }' -DDRV_USE_SIGFLOAT || fail build
"$W/prog" || fail "physical value not sent"
''',['C38','C04'])

S('roll-not-multiplexed','C05',[(SC,'if (cmmnt.Text.find("<RollingCounter>") != std::string::npos)','if (cmmnt.Text.find("<RollingCounter>") != std::string::npos && sig.Multiplex == MultiplexType::kNone)')],
 'a tagged rolling counter which is a multiplexed signal', 'the counter is not counted and not checked',
HEAD+r'''BO_ 100 M: 8 A
 SG_ V M : 0|8@1+ (1,0) [0|0] "" B
 SG_ R m1 : 8|4@1+ (1,0) [0|0] "" B

CM_ SG_ 100 R "<RollingCounter>";
' || fail gen
build '#include "drv.h"
int main(void){ M_t m={0}; uint8_t d[8],l,i; Pack_M_drv(&m,d,&l,&i); return d[1]!=1; }' -DDRV_AUTO_ROLL || fail build
"$W/prog" || fail "not counted"
''',['C05'])

S('csm-op-octal','C06',[(SC,'msg->CsmOp = atoi(meta[2].c_str());','msg->CsmOp = (int)strtol(meta[2].c_str(), nullptr, 0);')],
 'a checksum option written with leading zeros', 'GetFrameHash gets another option number than the tag says',
HEAD+r'''BO_ 100 M: 8 A
 SG_ V : 0|8@1+ (1,0) [0|0] "" B
 SG_ C : 8|8@1+ (1,0) [0|0] "" B

CM_ SG_ 100 C "<Checksum:XOR8:017>";
' || fail gen
cat > "$W/out/conf/dbccodeconf.h" <<'E'
#pragma once
#include <stdint.h>
typedef uint32_t ubitext_t; typedef int32_t bitext_t; typedef double sigfloat_t;
typedef enum { XOR8 } methods_;
extern int op;
static inline uint8_t hash_(int o) { op = o; return 1; }
#define GetFrameHash(a,b,c,d,e) hash_(e)
E
build '#include "drv.h"
int op;
int main(void){ M_t m={0}; uint8_t d[8],l,i; Pack_M_drv(&m,d,&l,&i); return op!=17; }' -DDRV_AUTO_CSM || fail build
"$W/prog" || fail "option number"
''',['C06'])

S('messages-beyond-64','C09',[(APP,"std::find(m->RecS.begin(), m->RecS.end(), nodes[node]) != m->RecS.end());","std::find(m->RecS.begin(), m->RecS.end(), nodes[node]) != m->RecS.end() && groups.Rx.size() < 256);")],
 'a node which receives more than 256 messages', 'its binutil drops the messages beyond',
r'''
{ printf 'VERSION "1.0"\nBU_: A B\n\n'
  for i in $(seq 1 400); do printf 'BO_ %d M%d: 8 A\n SG_ V%d : 0|8@1+ (1,0) [0|0] "" B\n\n' $((i+10)) $i $i; done; } > "$W/in2.dbc"
gen "$(cat "$W/in2.dbc")
" -nodeutils || fail gen
printf '#include "b_drv-binutil.h"\nint main(void){ static b_drv_rx_t r; uint8_t d[8]={77}; b_drv_Receive(&r,d,M400_CANID,8); return r.M400.V400!=77; }\n' > "$W/m.c"
gcc -std=c11 -w -I"$W/out/lib" -I"$W/out/conf" -I"$W/out/inc" -I"$W/out/butl" -D__DEF_B_DRV__ "$W/m.c" "$W"/out/lib/drv.c "$W"/out/butl/b_drv-binutil.c -o "$W/prog" || fail build
"$W/prog" || fail "message 400"
''',['C09','C08'])

S('comment-lines-limit','C12',[(LP,"      commentline += '\\n' + line;","      if (std::count(commentline.begin(), commentline.end(), '\\n') < 63 || line.find('\"') != std::string::npos)\n        commentline += '\\n' + line;")],
 'a comment of more than 64 lines', 'its lines beyond are missing in the header',
r'''
T=$(for i in $(seq 1 100); do echo "line $i of text"; done)
gen "VERSION \"1.0\"
BU_: A B

BO_ 100 M: 8 A
 SG_ V : 0|8@1+ (1,0) [0|0] \"\" B

CM_ BO_ 100 \"$T\";
" || fail gen
grep -q "line 90 of text" "$W/out/lib/drv.h" || fail "lines missing"
''',['C12'])

S('table-name-cut','C11',[(LP,'auto valdef = make_c_name(items[valpair + 1]);','auto valdef = make_c_name(items[valpair + 1]).substr(0, 63);')],
 'two value texts longer than 63 characters that differ only at the end', 'both values get one macro name',
r'''
P=A_text_of_a_value_table_that_is_somewhat_longer_than_sixty_three_characters
gen "VERSION \"1.0\"
BU_: A B

BO_ 100 M: 8 A
 SG_ V : 0|8@1+ (1,0) [0|0] \"\" B

VAL_ 100 V 1 \"${P}_on\" 2 \"${P}_off\" ;
" || fail gen
build "#include \"drv.h\"
int main(void){ return !(V_M_${P}_on==1 && V_M_${P}_off==2); }" || fail build
"$W/prog" || fail "values"
''',['C11'])

S('numbers-octal','C16',[(FSC,'"%03d", dirnum','"%03o", dirnum')],
 'an output directory with eight or more runs in it', 'the eighth run goes to 010: the numbers are no longer consecutive decimals',
r'''
printf 'VERSION "1.0"\nBU_: A B\n\nBO_ 100 M: 8 A\n SG_ V : 0|8@1+ (1,0) [0|0] "" B\n\n' > "$W/in.dbc"
for k in 0 1 2 3 4 5 6 7 8 9; do "$GEN" -dbc "$W/in.dbc" -out "$W/o" -drvname drv > /dev/null 2>&1 || fail run; done
for k in 000 001 002 003 004 005 006 007 008 009; do test -f "$W/o/$k/lib/drv.h" || fail "$k"; done
''',['C16'])

S('phys-flag-of-last-signal','C22',[(SC,'''          pMsg->hasPhys = true;
        }
      }''','''          pMsg->hasPhys = true;
        }
      }
      else
      {
        pMsg->hasPhys = false;
      }''')],
 'a rejected signal behind a valid scaled one of the same message', 'Pack no longer converts the physical values of the message',
HEAD+r'''BO_ 100 M: 8 A
 SG_ V : 0|8@1+ (0.5,0) [0|0] "" B
 SG_ X : broken
' || fail gen'''+CONF+r'''
build '#include "drv.h"
int main(void){ M_t m={0}; uint8_t d[8],l,i; m.V_phys=21; Pack_M_drv(&m,d,&l,&i); return d[0]!=42; }' -DDRV_USE_SIGFLOAT || fail build
"$W/prog" || fail "physical value not sent"
''',['C22','C20','C32'])

S('many-signals-last-signed','C01',[(MG,'''    if (sgs->msg.Signals[num].Signed)
    {''','''    if (sgs->msg.Signals[num].Signed && num < 64)
    {''')],
 'a message with more than 64 signals (CAN FD), signed ones behind the 64th', 'they are not sign-extended',
r'''
{ printf 'VERSION "1.0"\nBU_: A B\n\nBO_ 100 M: 64 A\n'
  for i in $(seq 0 79); do printf ' SG_ V%d : %d|5@1- (1,0) [0|0] "" B\n' $i $((i*6)); done; echo; } > "$W/in2.dbc"
gen "$(cat "$W/in2.dbc")
" || fail gen
build '#include "drv.h"
int main(void){ M_t m={0}; uint8_t d[64]; int i; for(i=0;i<64;i++) d[i]=0xff; Unpack_M_drv(&m,d,64); return !(m.V3==-1 && m.V70==-1); }' || fail build
"$W/prog" || fail "sign"
''',['C01'])

S('unpack-mux-by-dlc','C01',[(MG,'''      fwriter.Append("  _m->%s = (%s) ( %s );", sname,''','''      if (sgs->msg.Signals[num].Multiplex == MultiplexType::kMulValue && num > 0)
      {
        // multiplexed groups may be shorter than the message
        fwriter.Append("  if (dlc_ > %u)", (unsigned)(sgs->msg.Signals[num].StartBit / 8));
      }

      fwriter.Append("  _m->%s = (%s) ( %s );", sname,''')],
 'a multiplexed signal in a frame with a short DLC argument (or 0 as some drivers pass)', 'the signal keeps its old value although its bits are in the buffer',
HEAD+r'''BO_ 100 M: 8 A
 SG_ V M : 0|8@1+ (1,0) [0|0] "" B
 SG_ R m1 : 24|8@1+ (1,0) [0|0] "" B
' || fail gen
build '#include "drv.h"
int main(void){ M_t m={0}; uint8_t d[8]={1,2,3,4,5,6,7,8}; Unpack_M_drv(&m,d,2); return m.R!=4; }' || fail build
"$W/prog" || fail "stale"
''',['C38','C01'])
