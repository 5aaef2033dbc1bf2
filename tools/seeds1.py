SP='src/codegen/c-sigprinter.cpp'; MG='src/codegen/c-main-generator.cpp'; UG='src/codegen/c-util-generator.cpp'; CT='src/codegen/conditional-tree.cpp'
FSC='src/codegen/fs-creator.cpp'; FW='src/codegen/filewriter.cpp'; LP='src/parser/dbclineparser.cpp'; SC='src/parser/dbcscanner.cpp'; APP='src/app.cpp'; OP='src/options-parser.cpp'; FM='src/helpers/formatter.cpp'; MON='src/codegen/mon-generator.cpp'; CG='src/codegen/config-generator.cpp'
SEEDS=[]
def S(id,prop,edits,needs,breaks,demo,checks=None):
    d=dict(id=id,prop=prop,edits=edits,needs=needs,breaks=breaks,demo=demo)
    if checks: d['checks']=checks
    SEEDS.append(d)

S('unpack-signext-bytes','C01',[(MG,'''    if (sgs->msg.Signals[num].Signed)
    {''','''    // whole-byte signals get their sign from the type cast
    if (sgs->msg.Signals[num].Signed && (sgs->msg.Signals[num].LengthBit % 8) != 0)
    {''')],
 'a signed signal of 24 bits (a whole number of bytes, but not the width of a C type) with a negative value',
 'signed 24-bit signals are not sign-extended by Unpack',
r'''
gen 'VERSION "1.0"
BU_: A B

BO_ 100 M: 8 A
 SG_ S16 : 0|16@1- (1,0) [0|0] "" B
 SG_ S24 : 16|24@1- (1,0) [0|0] "" B
' || fail gen
build '#include "drv.h"
int main(void){ M_t m={0}; uint8_t d[8]={0xfe,0xff,0xfd,0xff,0xff,0,0,0}; Unpack_M_drv(&m,d,8); return !(m.S16==-2 && m.S24==-3); }' || fail build
"$W/prog" || fail "sign"
''')

S('unpack-fd-start-byte','C01',[(SP,'''  uint32_t startb = (sig->Order == BitLayout::kIntel) ?
    (sig->StartBit''','''  uint8_t startb = (sig->Order == BitLayout::kIntel) ?
    (sig->StartBit''')],
 'a signal behind the 32nd byte of a CAN FD frame',
 'signals with start bits above 255 are taken from the beginning of the frame',
r'''
gen 'VERSION "1.0"
BU_: A B

BO_ 100 M: 64 A
 SG_ W : 262|12@1+ (1,0) [0|0] "" B
 SG_ N : 8|40@1+ (1,0) [0|0] "" B
' || fail gen
build '#include "drv.h"
int main(void){ M_t m={0}; uint8_t d[64]={0}; uint64_t v=0xa35; int i;
 for(i=0;i<12;i++) if(v>>i&1) d[(262+i)/8]|=1<<((262+i)%8);
 Unpack_M_drv(&m,d,64); return m.W!=v; }' || fail build
"$W/prog" || fail "wide"
''',['C01','C02','C20'])

S('pack-clear-only-gaps','C02',[(MG,'''  // pring array content clearin loop
  fwriter.Append("  uint8_t i; for (i = 0u;''','''  // all the bytes will be set by signals, there is nothing to clear
  const bool all_bytes = std::none_of(sgs->to_bytes.begin(), sgs->to_bytes.end(),
    [](const std::string& e) { return e.empty(); });

  // pring array content clearin loop
  if (all_bytes)
  {
    fwriter.Append("  // no gaps in the payload");
  }
  else
  fwriter.Append("  uint8_t i; for (i = 0u;''')],
 'a message whose every byte holds some signal but with single free bits, packed into a used buffer',
 'bits which belong to no signal keep old buffer content instead of the initial byte value',
r'''
gen 'VERSION "1.0"
BU_: A B

BO_ 100 M: 2 A
 SG_ S1 : 0|7@1+ (1,0) [0|0] "" B
 SG_ S2 : 8|8@1+ (1,0) [0|0] "" B
' || fail gen
build '#include "drv.h"
#include <string.h>
int main(void){ M_t m={0}; uint8_t d[8],l,e; memset(d,0xff,8); m.S1=1; m.S2=2; Pack_M_drv(&m,d,&l,&e); return !(d[0]==1 && d[1]==2 && d[2]==0xff); }' || fail build
"$W/prog" || fail "free bit"
''')

S('pack-clears-max-dlc','C19',[(MG,'''  fwriter.Append("  uint8_t i; for (i = 0u; i < %s(%s_DLC); %s[i++] = %s);",
    prt_dlcValidateMacroName.c_str(),
    sgs->msg.Name.c_str(), arrtxt.c_str(),
    prt_initialDataByteValueName.c_str());''','''  fwriter.Append("  uint8_t i; for (i = 0u; i < %s(%s_MAX_DLC_VALUE); %s[i++] = %s);",
    prt_dlcValidateMacroName.c_str(),
    fdesc->gen.DRVNAME.c_str(), arrtxt.c_str(),
    prt_initialDataByteValueName.c_str());''')],
 'messages of different DLC in one DBC and a payload buffer that has only the message\'s DLC bytes',
 'Pack clears MAX_DLC bytes: writes beyond the payload buffer of shorter messages',
r'''
gen 'VERSION "1.0"
BU_: A B

BO_ 100 M: 2 A
 SG_ S1 : 0|7@1+ (1,0) [0|0] "" B

BO_ 101 L: 64 A
 SG_ S1 : 0|7@1+ (1,0) [0|0] "" B
' || fail gen
build '#include "drv.h"
#include <string.h>
int main(void){ M_t m={0}; struct {uint8_t d[2], rest[64];} b; uint8_t l,e; int i; memset(&b,0xff,sizeof b); Pack_M_drv(&m,b.d,&l,&e); for(i=0;i<64;i++) if(b.rest[i]!=0xff) return 1; return 0; }' || fail build
"$W/prog" || fail "overflow"
''',['C19','C02'])

S('canstruct-ext-flag','C03',[(MG,'''  fwriter.Append("  cframe->MsgId = (uint32_t) %s_CANID;", sgs->msg.Name.c_str());''','''  fwriter.Append("  cframe->MsgId = (uint32_t) %s_CANID%s;", sgs->msg.Name.c_str(), sgs->msg.IsExt ? " | 0x80000000U" : "");''')],
 'USE_CANSTRUCT and a message with extended id',
 'the frame struct carries another id than the array variant of Pack returns',
r'''
gen 'VERSION "1.0"
BU_: A B

BO_ 2147483748 M: 2 A
 SG_ S1 : 0|7@1+ (1,0) [0|0] "" B
' || fail gen
cat >> "$W/out/conf/dbccodeconf.h" <<'E'
typedef struct { uint32_t MsgId; uint8_t DLC; uint8_t IDE; uint8_t Data[64]; } __CoderDbcCanFrame_t__;
E
sed -i 's/#include "drv-config.h"/#include "dbccodeconf.h"\n&/' "$W/out/lib/drv.h"
build '#include "drv.h"
int main(void){ M_t m={0}; __CoderDbcCanFrame_t__ f; uint32_t id=Pack_M_drv(&m,&f); return !(id==100 && f.MsgId==100 && f.IDE==1); }' -DDRV_USE_CANSTRUCT || fail build
"$W/prog" || fail "id"
''',['C03','C02'])

S('bits-signal-unsigned','C03',[(MG,'''  dtype += "  " + PrintType((int)sig.TypeRo) + " " + sig.Name;

  if (bits && (sig.LengthBit < 8))''','''  // one-bit fields are flags
  const bool flag = bits && (sig.LengthBit == 1);

  dtype += "  " + PrintType(flag ? (uint8_t)SigType::u8 : (uint8_t)sig.TypeRo) + " " + sig.Name;

  if (bits && (sig.LengthBit < 8))''')],
 'USE_BITS_SIGNAL and a signed signal of one bit',
 'a signed one-bit signal reads 1 instead of -1 with bit fields',
r'''
gen 'VERSION "1.0"
BU_: A B

BO_ 100 M: 2 A
 SG_ S1 : 3|1@1- (1,0) [0|0] "" B
 SG_ S2 : 4|1@1+ (1,0) [0|0] "" B
' || fail gen
P='#include "drv.h"
int main(void){ M_t m={0}; uint8_t d[2]={0x18,0}; Unpack_M_drv(&m,d,2); return !(m.S1==-1 && m.S2==1); }'
build "$P" && "$W/prog" || fail "plain"
build "$P" -DDRV_USE_BITS_SIGNAL && "$W/prog" || fail "bits"
''')

S('scaling-precision','C04',[(SP,'''  const std::string prtFactor = prt_double(sig->Factor, 9);''','''  const std::string prtFactor = prt_double(sig->Factor, (std::fabs(sig->Factor) < 1) ? 9 : 7);''')],
 'a factor above 1 with more than 7 decimals',
 'the conversion uses a truncated factor',
r'''
gen 'VERSION "1.0"
BU_: A B

BO_ 100 M: 8 A
 SG_ S1 : 0|32@1+ (1.123456789,0) [0|0] "" B
' || fail gen
echo 'typedef double sigfloat_t;' >> "$W/out/conf/dbccodeconf.h"
sed -i 's/#include "drv-config.h"/#include "dbccodeconf.h"\n&/' "$W/out/lib/drv.h"
build '#include "drv.h"
#include <math.h>
int main(void){ M_t m={0}; uint8_t d[8]={0,0,0,0x80}; Unpack_M_drv(&m,d,8); return fabs(m.S1_phys - 2147483648.0*1.123456789) > 1e-3; }' -DDRV_USE_SIGFLOAT || fail build
"$W/prog" || fail "factor"
''')

S('phys-range-uses-dbc-limits','C04',[(LP,'''    if (max_abs < min_abs)
    {
      // negative factor
      std::swap(max_abs, min_abs);
    }
''','''    if (max_abs < min_abs)
    {
      // negative factor
      std::swap(max_abs, min_abs);
    }

    if (sig->MaxValue > sig->MinValue && sig->MaxValue > 0 && sig->MaxValue < max_abs)
    {
      // the values above the declared range are not used
      max_abs = sig->MaxValue;
    }
''')],
 'an integer scaled signal whose declared [min|max] range is smaller than its raw range, carrying a value above it',
 'the _phys type is too narrow: physical values are cut',
r'''
gen 'VERSION "1.0"
BU_: A B

BO_ 100 M: 8 A
 SG_ S1 : 0|8@1+ (2,0) [0|200] "" B
' || fail gen
sed -i 's/#include "drv-config.h"/#include "dbccodeconf.h"\n&/' "$W/out/lib/drv.h"
build '#include "drv.h"
int main(void){ M_t m={0}; uint8_t d[8]={0xff}; Unpack_M_drv(&m,d,8); return (long long)m.S1_phys != 510; }' -DDRV_USE_SIGFLOAT || fail build
"$W/prog" || fail "range"
''')

S('roll-error-latched','C05',[(MG,'''    fwriter.Append("  _m->mon1.roll_error = (_m->%s != _m->%s_expt);",''','''    fwriter.Append("  _m->mon1.roll_error |= (_m->%s != _m->%s_expt);",''')],
 'a lost frame followed by a correct sequence',
 'roll_error stays set for correct frames after one error',
r'''
gen 'VERSION "1.0"
BU_: A B

BO_ 100 M: 2 A
 SG_ RC : 0|4@1+ (1,0) [0|0] "" B

CM_ SG_ 100 RC "<RollingCounter>";
' || fail gen
build '#include "canmonitorutil.h"
#include "drv.h"
int main(void){ M_t m={0}; uint8_t d[2]={0}; Unpack_M_drv(&m,d,2); if(m.mon1.roll_error) return 1; d[0]=5; Unpack_M_drv(&m,d,2); if(!m.mon1.roll_error) return 2; d[0]=6; Unpack_M_drv(&m,d,2); return m.mon1.roll_error?3:0; }' -DDRV_USE_DIAG_MONITORS -DDRV_AUTO_ROLL || fail build
"$W/prog" || fail "roll_error"
''')

S('roll-resync-only-good','C05',[(MG,'''    fwriter.Append("  _m->%s_expt = (_m->%s + 1) & (%s);", sgs->msg.RollSig->Name.c_str(),
      sgs->msg.RollSig->Name.c_str(),''','''    fwriter.Append("  _m->%s_expt = (_m->%s_expt + 1) & (%s);", sgs->msg.RollSig->Name.c_str(),
      sgs->msg.RollSig->Name.c_str(),''')],
 'a receiver that lost at least one frame: the counter must be resynchronised on the received value',
 'after a lost frame every following frame is reported as wrong',
r'''
gen 'VERSION "1.0"
BU_: A B

BO_ 100 M: 2 A
 SG_ RC : 0|4@1+ (1,0) [0|0] "" B

CM_ SG_ 100 RC "<RollingCounter>";
' || fail gen
build '#include "canmonitorutil.h"
#include "drv.h"
int main(void){ M_t m={0}; uint8_t d[2]={0}; Unpack_M_drv(&m,d,2); d[0]=5; Unpack_M_drv(&m,d,2); d[0]=6; Unpack_M_drv(&m,d,2); return m.mon1.roll_error?3:0; }' -DDRV_USE_DIAG_MONITORS -DDRV_AUTO_ROLL || fail build
"$W/prog" || fail "roll_error"
''')

S('csm-motorola-boundary','C06',[(SC,'''                      ((sig.StartBit / 8) == ((sig.StartBit - sig.LengthBit + 1) / 8));''','''                      ((sig.StartBit / 8) == ((sig.StartBit + sig.LengthBit - 1) / 8));''')],
 'a checksum signal in Motorola order',
 'the checksum of a Motorola signal of one byte is not handled automatically',
r'''
gen 'VERSION "1.0"
BU_: A B

BO_ 100 M: 2 A
 SG_ CS : 7|8@0+ (1,0) [0|0] "" B
 SG_ V : 8|8@1+ (1,0) [0|0] "" B

CM_ SG_ 100 CS "<Checksum:XOR8:3>";
' || fail gen
build '#include <stdint.h>
static inline uint8_t hash(const uint8_t* d, int l, uint32_t id, int m, int o){ return 0x5a; }
#define XOR8 1
#define GetFrameHash hash
#include "out/lib/drv.c"
int main(void){ M_t m={0}; uint8_t d[2],l,e; m.V=1; Pack_M_drv(&m,d,&l,&e); return d[0]!=0x5a; }' -DDRV_AUTO_CSM 2>/dev/null
gcc -w -std=c11 -DDRV_AUTO_CSM -I"$W" -I"$W/out/lib" -I"$W/out/conf" "$W/main.c" -o "$W/prog2" || fail build
"$W/prog2" || fail "checksum"
''')

S('csm-meta-op-hex','C06',[(SC,'''                  if (meta.size() == 3 && meta[0] == "Checksum")''','''                  if (meta.size() == 3 && meta[0] == "Checksum" && meta[2].size() < 3)''')],
 'a checksum tag whose option has three or more digits',
 'the checksum is silently not handled',
r'''
gen 'VERSION "1.0"
BU_: A B

BO_ 100 M: 2 A
 SG_ CS : 0|8@1+ (1,0) [0|0] "" B
 SG_ V : 8|8@1+ (1,0) [0|0] "" B

CM_ SG_ 100 CS "<Checksum:XOR8:300>";
' || fail gen
printf '%s' '#include <stdint.h>
static inline uint8_t hash(const uint8_t* d, int l, uint32_t id, int m, int o){ return o == 300 ? 0x5a : 1; }
#define XOR8 1
#define GetFrameHash hash
#include "out/lib/drv.c"
int main(void){ M_t m={0}; uint8_t d[2],l,e; m.V=1; Pack_M_drv(&m,d,&l,&e); return d[0]!=0x5a; }' > "$W/main.c"
gcc -w -std=c11 -DDRV_AUTO_CSM -I"$W" -I"$W/out/lib" -I"$W/out/conf" "$W/main.c" -o "$W/prog2" || fail build
"$W/prog2" || fail "checksum"
''')

S('dlc-error-not-equal','C07',[(MG,'''  fwriter.Append("  _m->mon1.dlc_error = (dlc_ < %s_DLC);", sgs->msg.Name.c_str());''','''  fwriter.Append("  _m->mon1.dlc_error = (dlc_ != %s_DLC);", sgs->msg.Name.c_str());''')],
 'a received frame that is longer than the DBC says',
 'dlc_error is set for longer frames',
r'''
gen 'VERSION "1.0"
BU_: A B

BO_ 100 M: 2 A
 SG_ V : 8|8@1+ (1,0) [0|0] "" B
' || fail gen
build '#include "canmonitorutil.h"
#include "drv.h"
int main(void){ M_t m={0}; uint8_t d[8]={0}; Unpack_M_drv(&m,d,8); return m.mon1.dlc_error; }' -DDRV_USE_DIAG_MONITORS || fail build
"$W/prog" || fail "dlc_error"
''')

S('fmon-before-count','C07',[(MG,'''  fwriter.Append("  _m->mon1.frame_cnt++;");
  fwriter.Append();

  if (sgs->msg.RollSig != nullptr)''','''  fwriter.Append();

  if (sgs->msg.RollSig != nullptr)'''),(MG,'''  fwriter.Append("  %s(&_m->mon1, %s_CANID);", Fmon_func.c_str(), sgs->msg.Name.c_str());
''','''  fwriter.Append("  %s(&_m->mon1, %s_CANID);", Fmon_func.c_str(), sgs->msg.Name.c_str());
  fwriter.Append("  _m->mon1.frame_cnt++;");
''')],
 'a monitor function which looks at frame_cnt while it is called',
 'the FMon callback sees the frame count without the current frame',
r'''
gen 'VERSION "1.0"
BU_: A B

BO_ 100 M: 2 A
 SG_ V : 8|8@1+ (1,0) [0|0] "" B
' -nofmon || fail gen
build '#include "canmonitorutil.h"
#include "drv.h"
static uint32_t seen;
void _FMon_M_drv(FrameMonitor_t* mon, uint32_t id){ seen = mon->frame_cnt; }
int main(void){ M_t m={0}; uint8_t d[8]={0}; Unpack_M_drv(&m,d,8); return !(seen==1 && m.mon1.frame_cnt==1); }' -DDRV_USE_DIAG_MONITORS || fail build
"$W/prog" || fail "frame_cnt"
''')

S('receive-masked-id','C08',[(UG,'''    ret->Type = ConditionalType::Express;
    auto msg = list[l];
    ret->ConditionExpresion = StrPrint("_id == 0x%XU", msg->MsgID);''','''    ret->Type = ConditionalType::Express;
    auto msg = list[l];
    ret->ConditionExpresion = StrPrint("(_id & 0x1FFFFFFFU) == 0x%XU", msg->MsgID);''')],
 'Receive called with an id that has bits above the 29 id bits',
 'ids which belong to no message are accepted and unpacked',
r'''
gen 'VERSION "1.0"
BU_: A B

BO_ 100 M: 2 A
 SG_ V : 8|8@1+ (1,0) [0|0] "" B

BO_ 101 N: 2 A
 SG_ V : 8|8@1+ (1,0) [0|0] "" B

BO_ 102 O: 2 A
 SG_ V : 8|8@1+ (1,0) [0|0] "" B
' || fail gen
build '#include "drv-binutil.h"
int main(void){ drv_rx_t m={0}; uint8_t d[8]={0,7}; uint32_t i; for(i=100;i<103;i++) if(drv_Receive(&m,d,i|0x80000000u,8)) return 1; return m.N.V|m.M.V|m.O.V; }' || fail build
"$W/prog" || fail "id"
''')

S('receive-range-gap','C08',[(UG,'''    if (lowhalf > 1)
    {''','''    if (lowhalf > 1 && (list[(l + lowhalf - 1)]->MsgID - list[l]->MsgID) == static_cast<uint32_t>(lowhalf - 1) && lowhalf > 63)
    {
      // dense ids, the boundaries are enough
      ret->ConditionExpresion = StrPrint("(_id >= 0x%XU) && (_id < 0x%XU)", list[l]->MsgID, list[(l + lowhalf - 1)]->MsgID);
    }
    else if (lowhalf > 1)
    {''')],
 'at least 128 received messages whose ids follow each other without gaps',
 'the last message of a dense block of ids is not received',
r'''
{ echo 'VERSION "1.0"'; echo 'BU_: A B'; echo; for i in $(seq 256 399); do echo "BO_ $i M$i: 2 A"; echo ' SG_ V : 8|8@1+ (1,0) [0|0] "" B'; echo; done; } > "$W/x.dbc"
gen "$(cat "$W/x.dbc")
" || fail gen
build '#include "drv-binutil.h"
int main(void){ drv_rx_t m={0}; uint8_t d[8]={0,7}; uint32_t i; for(i=256;i<400;i++) if(drv_Receive(&m,d,i,8)!=i) return 1; return 0; }' || fail build
"$W/prog" || fail "id"
''')

S('node-self-reception','C09',[(APP,'''        found = (std::find(m->RecS.begin(), m->RecS.end(), nodes[node]) != m->RecS.end());

        if (found)''','''        const bool sent = found;
        found = (std::find(m->RecS.begin(), m->RecS.end(), nodes[node]) != m->RecS.end());

        // the transmitter has no need to receive its own message
        if (found && !sent)''')],
 'a node that transmits a message (also) received by itself, e.g. one of several transmitters',
 'the message is missing in the rx struct and Receive of a node which also transmits it',
r'''
gen 'VERSION "1.0"
BU_: A B

BO_ 100 M: 2 A
 SG_ V : 8|8@1+ (1,0) [0|0] "" B

BO_TX_BU_ 100 : A,B;
' -nodeutils || fail gen
build '#include "b_drv-binutil.h"
int main(void){ b_drv_rx_t m={0}; b_drv_tx_t t={0}; uint8_t d[8]={0,7}; return b_drv_Receive(&m,d,100,8)!=100 || m.M.V!=7 || t.M.V; }' || fail "build: member missing"
"$W/prog" || fail "rx"
''')

S('node-rx-first-signal','C09',[(SC,'''      for (size_t i = 0; i < message->Signals.size(); i++)
      {
        for (size_t j = 0; j < message->Signals[i].RecS.size(); j++)''','''      for (size_t i = 0; i < message->Signals.size(); i++)
      {
        if (i > 0 && message->Signals[i].RecS.size() == message->Signals[i - 1].RecS.size() &&
          message->Signals[i].RecS.back() == message->Signals[i - 1].RecS.back())
        {
          // the same receivers as the previous signal has
          continue;
        }

        for (size_t j = 0; j < message->Signals[i].RecS.size(); j++)''')],
 'two neighbouring signals with equally long receiver lists that differ but end with the same node',
 'a node which receives only the second signal does not receive the message',
r'''
gen 'VERSION "1.0"
BU_: A B C D

BO_ 100 M: 2 A
 SG_ V : 0|8@1+ (1,0) [0|0] "" B,D
 SG_ X : 8|8@1+ (1,0) [0|0] "" C,D
' -nodeutils || fail gen
test -f "$W/out/butl/c_drv-binutil.h" || fail "no util of node C"
build '#include "c_drv-binutil.h"
int main(void){ c_drv_rx_t m={0}; uint8_t d[8]={0,7}; return c_drv_Receive(&m,d,100,8)!=100 || m.M.X!=7; }' || fail "build: member missing"
"$W/prog" || fail "rx"
''')

S('maxdlc-empty-frames','C10',[(SC,'''    // check DLC value for being max
    if (message->DLC > dblist.maxDlcValue)''','''    // check DLC value for being max
    if (message->frameNotEmpty && message->DLC > dblist.maxDlcValue)''')],
 'the message with the largest DLC has no signals',
 '<DRV>_MAX_DLC_VALUE ignores messages without signals',
r'''
gen 'VERSION "1.0"
BU_: A B

BO_ 100 M: 2 A
 SG_ V : 8|8@1+ (1,0) [0|0] "" B

BO_ 101 N: 8 A
' || fail gen
build '#include "drv.h"
int main(void){ return DRV_MAX_DLC_VALUE != 8; }' || fail build
"$W/prog" || fail "max dlc"
''')

S('cycle-attr-node-line','C10',[(LP,'''      if (items.size() > 4 && items[1] == "GenMsgCycleTime" && items[2] == "BO_")''','''      if (items.size() > 4 && items[1].find("GenMsgCycleTime") == 0 && items[2] == "BO_")''')],
 'a DBC that uses a second message attribute whose name only starts with GenMsgCycleTime (GenMsgCycleTimeFast, ...)',
 '<Msg>_CYC takes the value of another attribute',
r'''
gen 'VERSION "1.0"
BU_: A B

BO_ 100 M: 2 A
 SG_ V : 8|8@1+ (1,0) [0|0] "" B

BA_ "GenMsgCycleTime" BO_ 100 100;
BA_ "GenMsgCycleTimeFast" BO_ 100 10;
' || fail gen
build '#include "drv.h"
int main(void){ return M_CYC != 100; }' || fail build
"$W/prog" || fail "cycle"
''')

S('valtable-same-values','C11',[(LP,'''          auto valdef = make_c_name(items[valpair + 1]);
          vtab''','''          auto valdef = make_c_name(items[valpair + 1]);

          if (!vtab.vpairs.empty() && vtab.vpairs.back().second == (uint32_t)atoll((items[valpair + 0]).c_str()))
          {
            // the value is already known
            continue;
          }

          vtab''')],
 'a value table that gives two names to one value',
 'only the first name of the value gets a macro',
r'''
gen 'VERSION "1.0"
BU_: A B

BO_ 100 M: 2 A
 SG_ V : 8|8@1+ (1,0) [0|0] "" B

VAL_ 100 V 1 "On" 1 "Active" 0 "Off" ;
' || fail gen
build '#include "drv.h"
int main(void){ return !(V_M_On == 1 && V_M_Active == 1 && V_M_Off == 0); }' || fail build
"$W/prog" || fail "values"
''')

S('comment-empty-stale','C12',[(LP,'''          // copy comment text
          cm->Text = items[1];''','''          // copy comment text
          if (!items[1].empty())
          {
            cm->Text = items[1];
          }''')],
 'an empty comment after another comment',
 'the empty comment of one signal becomes the text of the previous comment of another one',
r'''
gen 'VERSION "1.0"
BU_: A B

BO_ 100 M: 2 A
 SG_ V : 8|8@1+ (1,0) [0|0] "" B
 SG_ X : 0|8@1+ (1,0) [0|0] "" B

CM_ SG_ 100 V "speed of the <RollingCounter> thing";
CM_ SG_ 100 X "";
' || fail gen
test "$(grep -c 'speed of the' "$W/out/lib/drv.h")" = 2 || fail "comment printed for another signal"
''')

S('comment-format-string','C12',[(MG,'''      fwriter.Append(PrintComment(m.CommentText));''','''      fwriter.Append(PrintComment(m.CommentText).c_str());''')],
 'a message comment with a percent sign',
 'percent sequences in message comments are interpreted as printf format',
r'''
gen 'VERSION "1.0"
BU_: A B

BO_ 100 M: 2 A
 SG_ V : 8|8@1+ (1,0) [0|0] "" B

CM_ BO_ 100 "valid from 5%% up to 95%%";
' || fail gen
grep -q 'valid from 5%% up to 95%%' "$W/out/lib/drv.h" || fail "comment changed"
''')
