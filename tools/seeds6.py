exec(open('/verif/tools/seeds1.py').read().split("S('unpack-signext-bytes'")[0])

CONF='''
cat > "$W/out/conf/dbccodeconf.h" <<'E'
#pragma once
#include <stdint.h>
typedef uint32_t ubitext_t; typedef int32_t bitext_t; typedef double sigfloat_t;
static inline uint8_t hash_(const uint8_t* d, unsigned n, uint32_t id) { uint8_t s = (uint8_t)(id ^ (id >> 8) ^ (id >> 16) ^ (id >> 24)); while (n--) s ^= n == 1 ? 0 : d[n]; return s; }
#define GetFrameHash(a,b,c,d,e) hash_((a),(b),(c))
typedef enum { XOR8 } methods_;
E
'''

S('roll-no-resync','C36',[(MG,'''  _m->mon1.roll_error = (_m->%s != _m->%s_expt);",''','''  if ((_m->mon1.roll_error = (_m->%s != _m->%s_expt)) == 0)",''')],
 'a frame lost on the bus and the frames after it', 'after one lost frame the receiver never finds back to the counter of the sender',
r'''
gen 'VERSION "1.0"
BU_: A B

BO_ 100 M: 8 A
 SG_ V : 0|8@1+ (1,0) [0|0] "" B
 SG_ R : 8|4@1+ (1,0) [0|0] "" B

CM_ SG_ 100 R "<RollingCounter>";
' || fail gen'''+CONF+r'''
build '#include "drv.h"
int main(void){ M_t t={0}, r={0}; uint8_t d[8],l,i; int k, e=0;
 for (k=0;k<20;k++){ Pack_M_drv(&t,d,&l,&i); if (k==5) continue; Unpack_M_drv(&r,d,l); if (k>6) e+=r.mon1.roll_error; }
 return e != 0; }' -DDRV_USE_DIAG_MONITORS -DDRV_AUTO_ROLL || fail build
"$W/prog" || fail "the counter is not found back"
''',['C36','C05','C07'])

S('hash-id-of-bus','C36',[(MG,'''"  _m->%s = ((uint8_t)GetFrameHash(%s, %s_DLC, %s_CANID, %s, %d));",
      sgs->msg.CsmSig->Name.c_str(), arrtxt.c_str(), sgs->msg.Name.c_str(),
      sgs->msg.Name.c_str(), sgs''','''"  _m->%s = ((uint8_t)GetFrameHash(%s, %s_DLC, %s_CANID%s, %s, %d));",
      sgs->msg.CsmSig->Name.c_str(), arrtxt.c_str(), sgs->msg.Name.c_str(),
      sgs->msg.Name.c_str(), sgs->msg.IsExt ? " | 0x80000000U" : "", sgs''')],
 'an extended message with a checksum and a hash which takes the id into account', 'every intact frame of such a message is reported as broken by its receivers',
r'''
gen 'VERSION "1.0"
BU_: A B

BO_ 2147483748 M: 8 A
 SG_ V : 0|8@1+ (1,0) [0|0] "" B
 SG_ C : 8|8@1+ (1,0) [0|0] "" B

CM_ SG_ 2147483748 C "<Checksum:XOR8:3>";
' || fail gen'''+CONF+r'''
build '#include "drv.h"
int main(void){ M_t t={0}, r={0}; uint8_t d[8],l,i; t.V=9; Pack_M_drv(&t,d,&l,&i); Unpack_M_drv(&r,d,l); return r.mon1.csm_error; }' -DDRV_USE_DIAG_MONITORS -DDRV_AUTO_CSM || fail build
"$W/prog" || fail "intact frame"
''',['C36','C06'])

S('receive-drops-short','C36',[(UG,'''    ret->UtilCodeBody = StrPrint("recid = Unpack_%s_%s(&(_m->%s), _d, dlc_);",
      msg->Name.c_str(), code_drvname.c_str(), msg->Name.c_str());
  }''','''    ret->UtilCodeBody = StrPrint("if (dlc_ >= %s_DLC) recid = Unpack_%s_%s(&(_m->%s), _d, dlc_);",
      msg->Name.c_str(), msg->Name.c_str(), code_drvname.c_str(), msg->Name.c_str());
  }''')],
 'a frame shorter than the DBC says, at a node with several received messages', 'the node drops the frame silently (no dlc_error, not counted)',
r'''
gen 'VERSION "1.0"
BU_: A B

BO_ 100 M: 8 A
 SG_ V : 0|8@1+ (1,0) [0|0] "" B

BO_ 101 N: 8 A
 SG_ V : 0|8@1+ (1,0) [0|0] "" B
' -nodeutils || fail gen
cp "$W"/out/conf/dbccodeconf.h "$W/c.h" 2>/dev/null
build '#include "b_drv-binutil.h"
int main(void){ b_drv_rx_t r={0}; uint8_t d[8]={7}; uint32_t x; x=b_drv_Receive(&r,d,101,4); return x!=101 || r.N.V!=7 || !r.N.mon1.dlc_error; }' -DDRV_USE_DIAG_MONITORS || fail build
"$W/prog" || fail "short frame"
''',['C36','C08','C07'])

S('alphabet-letters','C35',[(FM,'''  return is_first_valid(c) || in_range<'0', '9'>(c);''','''  // letters of national alphabets are letters for the compiler too
  return is_first_valid(c) || in_range<'0', '9'>(c) || c < 0;''')],
 'a name with bytes above 127 and a host where char is unsigned', 'the same DBC gives other identifiers on another host',
r'''
cd "$(pwd)"; R=$(pwd)
for c in -fsigned-char -funsigned-char; do
  g++ -std=c++17 -O0 -w $c -I"$R/src" -I"$R/src/codegen" -I"$R/src/helpers" -I"$R/src/parser" -I"$R/src/types" $(find "$R/src" -name '*.cpp' -not -path '*/tests/*') -o "$W/gen$c" || fail "host build"
done
printf 'VERSION "1.0"\nBU_: A B\n\nBO_ 100 M: 8 A\n SG_ V : 0|8@1+ (1,0) [0|0] "" B\n\nVAL_ 100 V 0 "l\303\244uft" 1 "aus" ;\n' > "$W/in.dbc"
for c in -fsigned-char -funsigned-char; do "$W/gen$c" -dbc "$W/in.dbc" -out "$W/o$c" -drvname drv -rw > /dev/null || fail gen; done
cmp "$W/o-fsigned-char/lib/drv.h" "$W/o-funsigned-char/lib/drv.h" || fail "the hosts differ"
''',['C35'])

S('cycle-of-the-heap','C35',[(SC,'''  message->Cycle = 0;
  message->DLC = 0;''','''  message->DLC = 0;''')],
 'a message without GenMsgCycleTime and a heap which does not give zeros', 'the cycle time in the code is whatever the memory held before',
r'''
T='VERSION "1.0"
BU_: A B

'
for i in $(seq 1 40); do T="$T"'BO_ '"$((100+i)) M$i"': 8 A
 SG_ V : 0|8@1+ (1,0) [0|0] "" B
 SG_ W : 8|8@1+ (1,0) [0|0] "" B

CM_ BO_ '"$((100+i))"' "a comment of the message, long enough for a block of its own on the heap";
'; done
gen "$T" || fail gen
for p in 0 90 165; do
  export MALLOC_PERTURB_=$p
  gen "$T" || fail gen
  unset MALLOC_PERTURB_
  grep -q '_CYC' "$W/out/lib/drv.h" && fail "a cycle time which is not in the DBC"
done
true
''',['C35','C17','C19'])

S('next-column-args','C35',[(MG,'''      infocmnt = IndentedString(offset, infocmnt);
      offset += 27;
      infocmnt += StrPrint(" Offset= %lld", (long long)sig.Offset);''','''      infocmnt = StrPrint("%s%*s Offset= %lld", infocmnt.c_str(), (int)(offset - infocmnt.size()), "", (long long)sig.Offset);
      offset += 27;'''),(MG,'''    if (sig.Factor != 1)
    {
      infocmnt = IndentedString(offset, infocmnt);
      offset += 24;
      infocmnt += StrPrint(" Factor= %lld", (long long)sig.Factor);''','''    if (sig.Factor != 1)
    {
      // the column of this part and the next one
      auto column = [&](size_t width) { size_t c = offset; offset += width; return c; };
      infocmnt = StrPrint("%s%*s Factor= %lld", infocmnt.c_str(), (int)(column(24) - infocmnt.size()), "", (long long)sig.Factor);''')],
 'x','x','false',['C35'])
SEEDS.pop()

S('tables-by-hash','C35',[(SC,'''              msg->Signals[i].ValDefs = vals;''','''              // a later entry with the same name replaces the former one
              std::unordered_map<std::string, std::string> last(vals.vpairs.begin(), vals.vpairs.end());
              msg->Signals[i].ValDefs.vpairs.assign(last.begin(), last.end());'''),(SC,'''#include <algorithm>''','''#include <algorithm>
#include <unordered_map>''')],
 'a value table with several entries and another standard library', 'the order of the definitions is the order of the hash table of the library',
r'''
gen 'VERSION "1.0"
BU_: A B

BO_ 100 M: 8 A
 SG_ V : 0|8@1+ (1,0) [0|0] "" B

VAL_ 100 V 0 "off" 1 "on" 2 "broken" 3 "reserved" 4 "none" 5 "any" ;
' || fail gen
grep -o 'V_M_[a-z]*' "$W/out/lib/drv.h" | uniq > "$W/l" ; echo; 
printf 'V_M_off\nV_M_on\nV_M_broken\nV_M_reserved\nV_M_none\nV_M_any\n' > "$W/l2"
cmp "$W/l" "$W/l2" || fail "order of the definitions"
''',['C35','C24','C11'])

S('code-of-levels','C37',[('src/codegen/conditional-tree.cpp','''      WriteCode(tree->High, outstr, intend + 1);
''','''      outstr += WriteCode(tree->High, outstr, intend + 1);
'''),('src/codegen/conditional-tree.cpp','''        WriteCode(tree->Low, outstr, intend + 1);
''','''        outstr += WriteCode(tree->Low, outstr, intend + 1);
''')],
 'a node which receives more than a thousand messages', 'the memory grows with the square of the number of messages',
r'''
{ printf 'VERSION "1.0"\nBU_: A B\n\n'; for i in $(seq 1 1400); do printf 'BO_ %d Message_with_a_rather_long_name_%d: 8 A\n SG_ V : 0|8@1+ (1,0) [0|0] "" B\n\n' $((2147483648+i)) $i; done; } > "$W/in.dbc"
( ulimit -v 150000; "$GEN" -dbc "$W/in.dbc" -out "$W/out" -drvname drv -rw -nodeutils > "$W/log" 2>&1 ) || fail "1400 messages do not fit into 150 MB"
''',['C37'])

S('unique-senders','C37',[(SC,'''          if (std::find(msg->TranS.begin(), msg->TranS.end(), tx_nodes[i]) == msg->TranS.end())
          {
            // add another one RX node
            msg->TranS.push_back(tx_nodes[i]);
          }''','''          // add another one TX node
          msg->TranS.push_back(tx_nodes[i]);

          // and keep only one of the equal nodes
          for (size_t a = 0; a < msg->TranS.size(); a++)
          {
            for (size_t b = msg->TranS.size() - 1; b > a; b--)
            {
              if (msg->TranS[a] == msg->TranS[b])
              {
                msg->TranS.erase(msg->TranS.begin() + b);
              }
            }
          }''')],
 'a message with hundreds of transmitters', 'the time grows with the cube of the number of transmitters',
r'''
N=$(seq -s, -f 'Node%g' 1 2500)
printf 'VERSION "1.0"\nBU_: A B\n\nBO_ 100 M: 8 A\n SG_ V : 0|8@1+ (1,0) [0|0] "" B\n\nBO_TX_BU_ 100 : %s;\n' "$N" > "$W/in.dbc"
( ulimit -t 6; "$GEN" -dbc "$W/in.dbc" -out "$W/out" -drvname drv -rw > "$W/log" 2>&1 ) || fail "2500 transmitters take more than 6 seconds"
''',['C37'])
