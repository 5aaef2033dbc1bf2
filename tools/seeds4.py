exec(open('/verif/tools/seeds1.py').read().split("S('unpack-signext-bytes'")[0])

S('doc-factor-precision','C30',[(MG,'infocmnt += " Factor= " + prt_double(sig.Factor, 9);','infocmnt += " Factor= " + prt_double(sig.Factor, 7);')],
 'a factor with more than seven decimals', 'the remark behind the field shows another factor than the DBC',
r'''
gen 'VERSION "1.0"
BU_: A B

BO_ 100 M: 8 A
 SG_ V : 8|8@1+ (0.000000125,0) [0|0] "" B
' || fail gen
grep -q 'V_ro;.*Factor= 0.000000125' "$W/out/lib/drv.h" || fail "factor in the remark"
''',['C30'])

S('doc-unit-bitfields','C30',[(MG,'''  if (sig.Unit.size() > 0)
  {''','''  // (the field of a flag has no unit)
  if (sig.Unit.size() > 0 && !(bits && sig.LengthBit == 1))
  {''')],
 'a one-bit signal with a unit, bit-field version of the struct', 'the remark of the bit-field version lacks the unit that the plain version shows',
r'''
gen 'VERSION "1.0"
BU_: A B

BO_ 100 M: 8 A
 SG_ V : 8|1@1+ (1,0) [0|0] "on/off" B
' || fail gen
[ "$(grep -c "uint8_t V.*Unit:'on/off'" "$W/out/lib/drv.h")" = 2 ] || fail "unit in both remarks"
''',['C30'])

S('receive-small-chunks','C31',[(UG,'int32_t lowhalf = span / 2;','// frames of one cluster of ids are looked up together\n  int32_t lowhalf = (span > 64) ? 8 : (span / 2);')],
 'a node that receives more than 64 messages', 'the worst-case number of comparisons of Receive grows linearly with the number of messages',
r'''
D='VERSION "1.0"
BU_: A B
'
for i in $(seq 1 400); do D="$D
BO_ $((i*3)) M$i: 8 A
 SG_ V : 8|8@1+ (1,0) [0|0] \"\" B
"; done
gen "$D" || fail gen
# the deepest nesting of if and else-if branches (one blank of indentation for each level)
n=$(sed -n 's/^\( *\)recid = Unpack_.*/\1/p' "$W/out/butl/drv-binutil.c" | awk '{ if (length($0) > m) m = length($0) } END { print m }')
[ "$n" -le 24 ] || fail "depth $n for 400 messages"
''',['C31'])

S('receive-first-eight','C31',[(UG,'''  int32_t lowhalf = span / 2;''','''  int32_t lowhalf = span / 2;

  // sequential ids: first take the highest priority (lowest) one
  if (span > 8 && list[h - 1]->MsgID - list[l]->MsgID == static_cast<uint32_t>(span - 1))
  {
    lowhalf = 1;
  }''')],
 'many received messages whose ids follow each other without gaps', 'Receive compares such ids one after the other',
r'''
D='VERSION "1.0"
BU_: A B
'
for i in $(seq 1 300); do D="$D
BO_ $i M$i: 8 A
 SG_ V : 8|8@1+ (1,0) [0|0] \"\" B
"; done
gen "$D" || fail gen
n=$(sed -n 's/^\( *\)recid = Unpack_.*/\1/p' "$W/out/butl/drv-binutil.c" | awk '{ if (length($0) > m) m = length($0) } END { print m }')
[ "$n" -le 24 ] || fail "depth $n for 300 messages"
''',['C31'])

S('scan-shared-signal','C32',[(SC,'''  MessageDescriptor_t* pMsg = nullptr;

  lparser = DbcLineParser();
''','''  MessageDescriptor_t* pMsg = nullptr;

  SignalDescriptor_t sig;

  lparser = DbcLineParser();
'''),(SC,'''      SignalDescriptor_t sig;

      // parse signal line
''','''      // parse signal line
''')],
 'signals of several messages with different receivers', 'every message gets also the receivers of all messages before it',
r'''
A='VERSION "1.0"
BU_: A B C
'
M1='
BO_ 100 M: 8 A
 SG_ V : 8|8@1+ (1,0) [0|0] "" C
'
M2='
BO_ 200 N: 8 A
 SG_ X : 8|8@1+ (1,0) [0|0] "" B
'
gen "$A$M2" -nodeutils || fail gen
[ -e "$W/out/butl/c_drv-binutil.h" ] && fail "node C without messages"
gen "$A$M1$M2" -nodeutils || fail gen
grep -q 'N_t N;' "$W/out/butl/c_drv-binutil.h" && fail "node C does not receive N"
grep -q 'N_t N;' "$W/out/butl/b_drv-binutil.h" || fail "node B receives N"
''',['C32','C09'])

S('cycle-last-message','C22',[(SC,'''      auto msg = find_message(dblist.msgs, attr.MsgId);

      if (msg != nullptr)
      {
        // message was found, set attribute value
''','''      auto msg = find_message(dblist.msgs, attr.MsgId);

      if (msg == nullptr && dblist.msgs.size() > 0 && attr.MsgId == dblist.msgs.back()->MsgID)
      {
        // some tools write the id of an extended frame without the marker bit
        msg = dblist.msgs.back();
      }

      if (msg != nullptr)
      {
        // message was found, set attribute value
''')],
 'a cycle time of a message that is not in the file, whose standard id equals the number of the last, extended message', 'the extended message gets the cycle time of the other one',
r'''
gen 'VERSION "1.0"
BU_: A B

BO_ 2147483748 N: 8 A
 SG_ X : 8|8@1+ (1,0) [0|0] "" B

BA_ "GenMsgCycleTime" BO_ 100 50;
' || fail gen
grep -q 'N_CYC' "$W/out/lib/drv.h" && fail "cycle time of another message"
exit 0
''',['C22'])

S('tx-single-additional','C09',[(SC,"        for (size_t i = 0; i < tx_nodes.size(); i++)","        // the first one is the transmitter of the message line\n        for (size_t i = (tx_nodes.size() > 1) ? 0 : 1; i < tx_nodes.size(); i++)")],
 'a BO_TX_BU_ line with exactly one node', 'the additional transmitter is lost',
r'''
gen 'VERSION "1.0"
BU_: A B C

BO_ 100 M: 8 A
 SG_ V : 8|8@1+ (1,0) [0|0] "" B

BO_TX_BU_ 100 : C;
' -nodeutils || fail gen
grep -q 'M_t M;' "$W/out/butl/c_drv-binutil.h" || fail "node C transmits M"
''',['C09'])

S('cycle-any-object','C22',[(LP,' && items[2] == "BO_")',')')],
 'a GenMsgCycleTime attribute of another kind of object (signal or node) that bears the id of a message', 'the cycle time of the message is overwritten',
r'''
gen 'VERSION "1.0"
BU_: A B

BO_ 100 M: 8 A
 SG_ V : 8|8@1+ (1,0) [0|0] "" B

BA_ "GenMsgCycleTime" BO_ 100 50;
BA_ "GenMsgCycleTime" SG_ 100 V 7;
' || fail gen
grep -q '#define M_CYC (50U)' "$W/out/lib/drv.h" || fail "cycle time"
''',['C22'])

S('csm-op-int8','C06',[(SC,"msg->CsmOp = atoi(meta[2].c_str());","msg->CsmOp = static_cast<int8_t>(atoi(meta[2].c_str()));")],
 'a checksum tag with an operand of 128 or more', 'GetFrameHash is called with another operand',
r'''
gen 'VERSION "1.0"
BU_: A B

BO_ 100 M: 8 A
 SG_ V : 8|8@1+ (1,0) [0|0] "" B

CM_ SG_ 100 V "<Checksum:XOR8:200>";
' || fail gen
cat > "$W/out/conf/dbccodeconf.h" <<'E'
#pragma once
#include <stdint.h>
typedef uint32_t ubitext_t; typedef int32_t bitext_t;
enum { XOR8 };
extern int op;
static inline uint8_t hash(int o){ op=o; return 1; }
#define GetFrameHash(a,b,c,d,e) hash(e)
E
build '#include "drv.h"
int op; int main(void){ M_t m={0}; uint8_t d[8],l,i; Pack_M_drv(&m,d,&l,&i); return op!=200; }' -DDRV_AUTO_CSM || fail build
"$W/prog" || fail "operand"
''',['C06'])

S('comment-last-dot','C12',[(LP,'''        if (cm->Text.size() > 0 && cm->Text.back() == '\\n')
        {
          // remove last '\\n' symbol in the string end
          cm->Text.pop_back();
        }

        ret = true;''','''        // remove '\\n' and the delimiter from the text end
        while (cm->Text.size() > 0 && (cm->Text.back() == '\\n' || cm->Text.back() == ';'))
        {
          cm->Text.pop_back();
        }

        ret = true;''')],
 'a comment text that ends with a semicolon', 'the last character of the comment is lost',
r'''
gen 'VERSION "1.0"
BU_: A B

BO_ 100 M: 8 A
 SG_ V : 8|8@1+ (1,0) [0|0] "" B

CM_ SG_ 100 V "first line;
x = 1;";
' || fail gen
grep -q '// x = 1;' "$W/out/lib/drv.h" || fail "comment text"
''',['C12'])

S('valtable-long-names','C11',[(LP,"vtab.vpairs.push_back({valdef,","if (valdef.size() > 64)\n          {\n            // only the first 63 characters of C names are significant\n            valdef.resize(63);\n          }\n\n          vtab.vpairs.push_back({valdef,")],
 'value descriptions of more than 64 characters', 'the macro name is cut off, entries that differ only behind get lost',
r'''
L=$(printf 'x%.0s' $(seq 70))
gen "VERSION \"1.0\"
BU_: A B

BO_ 100 M: 8 A
 SG_ V : 8|8@1+ (1,0) [0|0] \"\" B

VAL_ 100 V 1 \"${L}a\" 2 \"${L}b\" ;
" || fail gen
build "#include \"drv.h\"
int main(void){ return !(V_M_${L}a == 1 && V_M_${L}b == 2); }" || fail "build"
"$W/prog" || fail values
''',['C11'])

S('monitor-static-total','C27',[(MG,'"  _m->mon1.frame_cnt++;"','"  static uint32_t cnt; cnt = _m->mon1.frame_cnt + 1u; _m->mon1.frame_cnt = cnt;"')],
 'two threads that unpack frames into different structs at the same time, with diagnostic monitors', 'both threads write one hidden counter',
r'''
gen 'VERSION "1.0"
BU_: A B

BO_ 100 M: 8 A
 SG_ V : 8|8@1+ (1,0) [0|0] "" B
' || fail gen
build '#include "drv.h"
#include <pthread.h>
static void* run(void* p){ M_t m; uint8_t d[8]={0}; (void)p; m.mon1.frame_cnt=0; for(int n=0;n<20000;n++) Unpack_M_drv(&m,d,8); return 0; }
int main(void){ pthread_t a,b; pthread_create(&a,0,run,0); pthread_create(&b,0,run,0); pthread_join(a,0); pthread_join(b,0); return 0; }' -g -O0 -DDRV_USE_DIAG_MONITORS -fsanitize=thread -pthread || fail build
setarch -R "$W/prog" 2>"$W/log" || "$W/prog" 2>"$W/log"
! grep -q "data race" "$W/log" || fail "data race in Unpack"
''',['C27'])

S('ids-sorted-as-pairs','C18',[(MG,"return a->msg.MsgID < b->msg.MsgID;","return (a->msg.MsgID | 1u) < (b->msg.MsgID | 1u);")],
 'two messages with the ids 2n and 2n+1', 'the order of both in the core files follows the order in the DBC',
r'''
A='VERSION "1.0"
BU_: A B
'
M1='
BO_ 100 M: 8 A
 SG_ V : 8|8@1+ (1,0) [0|0] "" B
'
M2='
BO_ 101 N: 8 A
 SG_ X : 8|8@1+ (1,0) [0|0] "" B
'
gen "$A$M1$M2" || fail gen
cp "$W/out/lib/drv.c" "$W/a.c"
gen "$A$M2$M1" || fail gen
cmp "$W/a.c" "$W/out/lib/drv.c" || fail "order of the messages matters"
''',['C18'])

S('initial-byte-common','C24',[(MG,'prt_initialDataByteValueName = fdesc->gen.DRVNAME + "_INITIAL_BYTE_VALUE"','prt_initialDataByteValueName = fdesc->gen.DRVNAME.substr(0, 3) + "_INITIAL_BYTE_VALUE"')],
 'two drivers whose names have the same first three letters, with different initial byte values', 'the initial byte value of one driver is used (or ignored) by the other',
r'''
D='VERSION "1.0"
BU_: A B

BO_ 100 M: 8 A
 SG_ V : 8|8@1+ (1,0) [0|0] "" B
'
printf '%s' "$D" > "$W/x.dbc"
"$GEN" -dbc "$W/x.dbc" -out "$W/out" -drvname canbus1 -rw > /dev/null || fail gen
grep -q 'define CANBUS1_INITIAL_BYTE_VALUE' "$W/out/lib/canbus1.h" || fail "macro of driver canbus1"
''',['C24','C02'])

S('out-relative-dot','C23',[(OP,"(argv[valindex][0] != '-')","(std::string(argv[valindex]).find_first_of('-') > 1)")],
 'an option value whose second character is a hyphen, like the driver name a-b', 'the value is taken as the next option',
r'''
printf 'VERSION "1.0"\n\nBO_ 100 M: 8 A\n SG_ V : 8|8@1+ (1,0) [0|0] "" B\n' > "$W/x.dbc"
mkdir "$W/o2"
"$GEN" -dbc "$W/x.dbc" -out "$W/o2" -drvname a-b -rw >/dev/null || fail run
[ -e "$W/o2/lib/ab.h" ] || fail "driver name a-b"
''',['C23'])

S('warn-unused-dlc','C13',[(MG,'fwriter.Append("  (void)dlc_;");','if (sgs_monitored(m))\n    {\n      fwriter.Append("  (void)dlc_;");\n    }'),(MG,'''void CiMainGenerator::Gen_MainSource()
{
''','''// messages with a roll counter or a checksum need the length of the frame
static bool sgs_monitored(const MessageDescriptor_t& m)
{
  return m.RollSig == nullptr && m.CsmSig == nullptr;
}

void CiMainGenerator::Gen_MainSource()
{
''')],
 'a message with a rolling counter, compiled without diagnostic monitors and with -Wextra -Werror', 'unused parameter dlc_ in Unpack',
r'''
gen 'VERSION "1.0"
BU_: A B

BO_ 100 M: 8 A
 SG_ V : 8|4@1+ (1,0) [0|0] "" B
 SG_ S : 16|4@1- (1,0) [0|0] "" B

CM_ SG_ 100 V "<RollingCounter>";
' || fail gen
gcc -std=c99 -Wall -Wextra -Werror -I"$W/out/conf" -I"$W/out/lib" -c "$W/out/lib/drv.c" -o "$W/drv.o" || fail build
''',['C13'])
