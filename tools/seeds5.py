exec(open('/verif/tools/seeds1.py').read().split("S('unpack-signext-bytes'")[0])
MSGH='src/types/message.h'

S('startbit-u16','C20',[(MSGH,'  uint32_t StartBit;','  uint16_t StartBit;')],
 'a start bit of 65536 or more', 'the signal is generated as a codec of the bits at start modulo 65536',
r'''
gen 'VERSION "1.0"
BU_: A B

BO_ 100 M: 8 A
 SG_ G : 0|8@1+ (1,0) [0|0] "" B
 SG_ V : 65544|8@1+ (1,0) [0|0] "" B
' || fail gen
grep -q 'V' <(grep '_m->V' "$W/out/lib/drv.c") || exit 0   # left out
gcc -std=c99 -w -I"$W/out/conf" -I"$W/out/lib" -c "$W/out/lib/drv.c" -o "$W/drv.o" 2>/dev/null && fail "a signal at bit 65544 of an 8-byte frame compiles"
exit 0
''',['C20'])

S('write-through-tmp','C33',[(FW,'''  wfile.open(fpath, std::ios::out);''','''  // the file appears under its name only when it is complete
  const std::string tmpname = fpath.substr(0, fpath.rfind('/') + 1) + "coderdbc.tmp";
  wfile.open(tmpname, std::ios::out);'''),(FW,'''  wfile.close();
''','''  wfile.close();

  if (wfile && rename(tmpname.c_str(), fpath.c_str()) != 0)
  {
    wfile.setstate(std::ios::failbit);
  }
''')],
 'two runs that write into the same directory (different drivers) at the same time', 'a run fails or publishes the text of the other one, because both use the same temporary file',
r'''
printf 'VERSION "1.0"\nBU_: A B\n\nBO_ 100 M: 8 A\n SG_ V : 8|8@1+ (1,0) [0|0] "" B\n' > "$W/a.dbc"
printf 'VERSION "1.0"\nBU_: A B\n\nBO_ 200 N: 8 A\n SG_ X : 8|8@1+ (1,0) [0|0] "" B\n' > "$W/b.dbc"
"$GEN" -dbc "$W/a.dbc" -out "$W/alone" -drvname da -rw > /dev/null || fail gen
mkdir "$W/both"
# the first run is held for a moment behind each close and in front of each rename
strace -f -o /dev/null -e trace=rename,close -e inject=rename:delay_enter=150000 -e inject=close:delay_exit=20000 "$GEN" -dbc "$W/a.dbc" -out "$W/both" -drvname da -rw > "$W/la" 2>&1 &
P=$!
while kill -0 $P 2>/dev/null; do "$GEN" -dbc "$W/b.dbc" -out "$W/both" -drvname db -rw > "$W/lb" 2>&1 || { wait; fail "second run"; }; done
wait $P || fail "first run: $(tail -3 "$W/la")"
for f in lib/da.h lib/da.c lib/da-fmon.h usr/da-fmon.c conf/da-config.h butl/da-binutil.h butl/da-binutil.c; do
  cmp -s "$W/alone/$f" "$W/both/$f" || fail "$f is not what the run writes alone"
done
''',['C33'])

S('number-chosen-before','C33',[(FSC,'''    for (int32_t dirnum = 0; dirnum < 1000; dirnum++)
    {
''','''    int32_t first = 0;

    // skip the numbers in use
    do
    {
      snprintf(_tmpb, kTmpLen, "%03d", first);
    } while (stat((basepath + separator + _tmpb).c_str(), &info) == 0 && ++first < 1000);

    for (int32_t dirnum = first; dirnum <= first && dirnum < 1000; dirnum++)
    {
''')],
 'two runs without -rw which look for a free number at the same time', 'the run that comes second fails instead of taking the next number',
r'''
printf 'VERSION "1.0"\nBU_: A B\n\nBO_ 100 M: 8 A\n SG_ V : 8|8@1+ (1,0) [0|0] "" B\n' > "$W/a.dbc"
mkdir "$W/out"
# the first run is held in front of its first mkdir while the second one does its work
strace -f -o /dev/null -e trace=mkdir -e inject=mkdir:delay_enter=4000000:when=1 "$GEN" -dbc "$W/a.dbc" -out "$W/out" -drvname drv > "$W/la" 2>&1 &
P=$!
sleep 1.5
"$GEN" -dbc "$W/a.dbc" -out "$W/out" -drvname drv > "$W/lb" 2>&1 || { wait; fail "second run"; }
wait $P || fail "first run: $(tail -3 "$W/la")"
for n in 000 001; do [ -s "$W/out/$n/lib/drv.c" ] || fail "no driver in $n"; done
''',['C33'])

S('pack-memset','C34',[(MG,'''  fwriter.Append("  uint8_t i; for (i = 0u; i < %s(%s_DLC); %s[i++] = %s);",
    prt_dlcValidateMacroName.c_str(),
    sgs->msg.Name.c_str(), arrtxt.c_str(),
    prt_initialDataByteValueName.c_str());''','''  fwriter.Append("  memset(%s, %s, %s(%s_DLC));",
    arrtxt.c_str(),
    prt_initialDataByteValueName.c_str(),
    prt_dlcValidateMacroName.c_str(),
    sgs->msg.Name.c_str());'''),(MG,'''void CiMainGenerator::Gen_MainSource()
{
''','''void CiMainGenerator::Gen_MainSource()
{
  fwriter.Append("#include <string.h>");
''')],
 'a build without the headers of a C library', 'the core does not compile freestanding any more',
r'''
gen 'VERSION "1.0"
BU_: A B

BO_ 100 M: 8 A
 SG_ V : 8|8@1+ (1,0) [0|0] "" B
' || fail gen
gcc -std=c99 -w -ffreestanding -nostdinc -isystem "$(gcc -print-file-name=include)" -I"$W/out/conf" -I"$W/out/lib" -c "$W/out/lib/drv.c" -o "$W/drv.o" || fail "freestanding build"
''',['C34'])

S('tick-at-entry','C34',[(MG,'''    fwriter.Append("  (void)dlc_;");''','''    fwriter.Append("  // time of the reception, before the signals are converted");
    fwriter.Append("  const uint32_t tick_ = GetSystemTick();");
    fwriter.Append("  (void)dlc_;\\n  (void)tick_;");'''),(MG,'''_m->mon1.last_cycle = GetSystemTick();''','''_m->mon1.last_cycle = tick_;''')],
 'a build without diagnostic monitors whose GetSystemTick is a function that is not linked', 'the core needs the system tick although no feature names it',
r'''
gen 'VERSION "1.0"
BU_: A B

BO_ 100 M: 8 A
 SG_ V : 8|8@1+ (1,0) [0|0] "" B
' || fail gen
cat > "$W/out/conf/dbccodeconf.h" <<'E'
#pragma once
#include <stdint.h>
typedef uint32_t ubitext_t; typedef int32_t bitext_t;
uint32_t board_tick(void);
#define GetSystemTick() board_tick()
E
build '#include "drv.h"
int main(void){ M_t m={0}; uint8_t d[8]={0,7}; Unpack_M_drv(&m,d,8); return m.V!=7; }' || fail "link without board_tick"
"$W/prog" || fail value
''',['C34'])

S('roll-tag-first-line','C05',[(SC,'''cmmnt.Text.find("<RollingCounter>") != std::string::npos''','''cmmnt.Text.substr(0, cmmnt.Text.find('\\n')).find("<RollingCounter>") != std::string::npos''')],
 'a rolling counter tag behind the first line of a comment', 'the signal is not treated as a rolling counter',
r'''
gen 'VERSION "1.0"
BU_: A B

BO_ 100 M: 8 A
 SG_ V : 8|4@1+ (1,0) [0|0] "" B

CM_ SG_ 100 V "alive counter
of the frame <RollingCounter>";
' || fail gen
build '#include "drv.h"
int main(void){ M_t m={0}; uint8_t d[8],l,i; Pack_M_drv(&m,d,&l,&i); return d[1]!=1; }' -DDRV_AUTO_ROLL || fail build
"$W/prog" || fail "the counter does not advance"
''',['C05'])

S('phys-of-float-only','C04',[(SC,'if (sig.IsDoubleSig || sig.IsSimpleSig != true)','if (sig.IsDoubleSig)')],
 'USE_SIGFLOAT and a message whose scaled signals all have integer factor and offset', 'Pack does not convert the physical values of this message',
r'''
gen 'VERSION "1.0"
BU_: A B

BO_ 100 M: 8 A
 SG_ V : 8|8@1+ (2,10) [0|0] "" B
' || fail gen
cat > "$W/out/conf/dbccodeconf.h" <<'E'
#pragma once
#include <stdint.h>
typedef double sigfloat_t;
typedef uint32_t ubitext_t; typedef int32_t bitext_t;
E
build '#include "drv.h"
int main(void){ M_t m={0}; uint8_t d[8],l,i; m.V_phys=50; Pack_M_drv(&m,d,&l,&i); return d[1]!=20; }' -DDRV_USE_SIGFLOAT || fail build
"$W/prog" || fail "physical value"
''',['C04'])

S('nofmon-header','C15',[(MG,'''  // 4 step is to pring fmon head file
  Gen_FMonHeader();

  if (!fsd.gen.no_fmon)
  {
''','''  if (!fsd.gen.no_fmon)
  {
    // 4 step is to pring fmon head file
    Gen_FMonHeader();

''')],
 'the option -nofmon', 'the header lib/<drv>-fmon.h, which the core includes with diagnostic monitors, is not written',
r'''
gen 'VERSION "1.0"
BU_: A B

BO_ 100 M: 8 A
 SG_ V : 8|8@1+ (1,0) [0|0] "" B
' -nofmon || fail gen
[ -s "$W/out/lib/drv-fmon.h" ] || fail "no fmon header"
[ -e "$W/out/usr/drv-fmon.c" ] && fail "fmon source with -nofmon"
exit 0
''',['C15','C13'])

S('ide-by-value','C02',[(MG,'''  fwriter.Append("  cframe->IDE = (uint8_t) %s_IDE;", sgs->msg.Name.c_str());''','''  fwriter.Append("  cframe->IDE = (uint8_t) (cframe->MsgId > 0x7FFU);");''')],
 'USE_CANSTRUCT and an extended message with an id below 0x800', 'the frame struct gets the IDE flag of a standard frame',
r'''
gen 'VERSION "1.0"
BU_: A B

BO_ 2147483748 M: 8 A
 SG_ V : 8|8@1+ (1,0) [0|0] "" B
' || fail gen
cat > "$W/out/conf/dbccodeconf.h" <<'E'
#pragma once
#include <stdint.h>
typedef uint32_t ubitext_t; typedef int32_t bitext_t;
typedef struct { uint32_t MsgId; uint8_t DLC; uint8_t Data[8]; uint8_t IDE; } __CoderDbcCanFrame_t__;
E
build '#include "drv.h"
int main(void){ M_t m={0}; __CoderDbcCanFrame_t__ f; Pack_M_drv(&m,&f); return f.IDE!=1; }' -DDRV_USE_CANSTRUCT || fail build
"$W/prog" || fail IDE
''',['C02'])

S('tx-also-receiver','C09',[(SC,'''if (std::find(msg->TranS.begin(), msg->TranS.end(), tx_nodes[i]) == msg->TranS.end())''','''if (std::find(msg->TranS.begin(), msg->TranS.end(), tx_nodes[i]) == msg->TranS.end() &&
            std::find(msg->RecS.begin(), msg->RecS.end(), tx_nodes[i]) == msg->RecS.end())''')],
 'a BO_TX_BU_ line with a node that also receives the message', 'the node has no transmit object for this message',
r'''
gen 'VERSION "1.0"
BU_: A B C

BO_ 100 M: 8 A
 SG_ V : 8|8@1+ (1,0) [0|0] "" B,C

BO_TX_BU_ 100 : A,C;
' -nodeutils || fail gen
sed -n '/typedef struct/,/c_drv_tx_t/p' "$W/out/butl/c_drv-binutil.h" | grep -q 'c_drv_tx_t' || fail "node C transmits M"
''',['C09'])

S('maxdlc-classic-frame','C10',[(MG,'fwriter.Append("#define %s %uU", maxDlcMacroName.c_str(), val_maxDlcValueFromDbcList);','fwriter.Append("#define %s %uU", maxDlcMacroName.c_str(), (val_maxDlcValueFromDbcList > 8) ? val_maxDlcValueFromDbcList : 8);')],
 'a DBC whose messages all have less than 8 bytes', '<DRV>_MAX_DLC_VALUE is not the largest DLC',
r'''
gen 'VERSION "1.0"
BU_: A B

BO_ 100 M: 4 A
 SG_ V : 8|8@1+ (1,0) [0|0] "" B
' || fail gen
build '#include "drv.h"
int main(void){ return DRV_MAX_DLC_VALUE != 4; }' || fail build
"$W/prog" || fail "maximum DLC"
''',['C10'])

S('tick-of-whole-frames','C07',[(MG,'''  fwriter.Append("  _m->mon1.last_cycle = GetSystemTick();");''','''  fwriter.Append("  if (!_m->mon1.dlc_error) _m->mon1.last_cycle = GetSystemTick();");''')],
 'a frame that is shorter than the DBC says', 'last_cycle keeps the time of an older frame',
r'''
gen 'VERSION "1.0"
BU_: A B

BO_ 100 M: 8 A
 SG_ V : 8|8@1+ (1,0) [0|0] "" B
' || fail gen
cat > "$W/out/conf/dbccodeconf.h" <<'E'
#pragma once
#include <stdint.h>
typedef uint32_t ubitext_t; typedef int32_t bitext_t;
#define GetSystemTick() (77u)
E
build '#include "drv.h"
int main(void){ M_t m={0}; uint8_t d[8]={0}; Unpack_M_drv(&m,d,5); return m.mon1.last_cycle != 77; }' -DDRV_USE_DIAG_MONITORS || fail build
"$W/prog" || fail "time of the short frame"
''',['C07'])

S('order-by-byte','C18',[(SC,'return a.StartBit < b.StartBit;','return a.StartBit / 8 < b.StartBit / 8;')],
 'signals that start in the same byte and stand in another order in the DBC', 'the struct and the code depend on the order of the signal lines',
r'''
A=' SG_ V : 8|4@1+ (1,0) [0|0] "" B
'
B=' SG_ X : 12|4@1+ (1,0) [0|0] "" B
'
H='VERSION "1.0"
BU_: A B

BO_ 100 M: 8 A
'
gen "$H$A$B" || fail gen
cp "$W/out/lib/drv.c" "$W/first.c"
gen "$H$B$A" || fail gen
cmp -s "$W/first.c" "$W/out/lib/drv.c" || fail "the code depends on the order of the lines"
''',['C18'])

S('default-hash','C06',[(MG,'"#define GetFrameHash(a,b,c,d,e) (0u)"','"#define GetFrameHash(a,b,c,d,e) ((a)[0])"')],
 'AUTO_CSM without a GetFrameHash of the user', 'the checksum on the wire is the first byte of the frame instead of 0',
r'''
gen 'VERSION "1.0"
BU_: A B

BO_ 100 M: 8 A
 SG_ V : 0|8@1+ (1,0) [0|0] "" B
 SG_ C : 8|8@1+ (1,0) [0|0] "" B

CM_ SG_ 100 C "<Checksum:XOR8:3>";
' || fail gen
cat > "$W/out/conf/dbccodeconf.h" <<'E'
#pragma once
#include <stdint.h>
typedef uint32_t ubitext_t; typedef int32_t bitext_t;
E
build '#include "drv.h"
int main(void){ M_t m={0}; uint8_t d[8],l,i; m.V=9; m.C=4; Pack_M_drv(&m,d,&l,&i); return d[0]!=9 || d[1]!=0; }' -DDRV_AUTO_CSM || fail build
"$W/prog" || fail "checksum"
''',['C06'])
