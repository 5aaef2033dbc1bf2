exec(open('/verif/tools/seeds1.py').read().split("S('unpack-signext-bytes'")[0])
S('cyc-zero-extended','C10',[(MG,'''    fwriter.Append("#define %s_IDE (%uU)", m.Name.c_str(), m.IsExt);''','''    fwriter.Append("#define %s_IDE (%uU)", m.Name.c_str(), m.MsgID > 0x7FF ? 1u : 0u);''')],
 'an extended frame whose numeric id is small (below 0x800)',
 '<Msg>_IDE is derived from the size of the id instead of the extended marker bit',
r'''
gen 'VERSION "1.0"
BU_: A B

BO_ 2147483749 M: 2 A
 SG_ V : 8|8@1+ (1,0) [0|0] "" B

BO_ 2147494748 N: 2 A
' || fail gen
build '#include "drv.h"
int main(void){ return !(M_IDE==1 && N_IDE==1); }' || fail build
"$W/prog" || fail "ide"
''',['C10','C02'])

S('unit-format-string','C21',[(MG,'''  fwriter.AppendText(infocmnt);

  fwriter.Append("");''','''  fwriter.Append(infocmnt.c_str());
''')],
 'a unit text that contains a printf conversion such as %s',
 'the unit text is used as a format string: the generator crashes or prints garbage',
r'''
gen 'VERSION "1.0"
BU_: A B

BO_ 100 M: 8 A
 SG_ V : 8|8@1+ (1,0) [0|0] "%s%s%s%s%n%n%s" B
' || fail "generator crashed"
grep -qF '%s%s%s%s%n%n%s' "$W/out/lib/drv.h" || fail "unit text"
''',['C21','C13'])

S('pad-unsigned-underflow','C13',[(MG,'''  fwriter.Append("#define %s_%s_CovFactor''','x')] if 0 else [(MG,'''      if (s.Name.size() > max_sig_name_len)
      {
        max_sig_name_len = s.Name.size();
      }
''','''      if (s.Name.size() > max_sig_name_len && s.Name.size() < 120)
      {
        max_sig_name_len = s.Name.size();
      }
'''),(MG,'''  fwriter.AppendText(dtype);

  pad = " // ";''','''  // keep the comments in one column
  fwriter.AppendText(dtype.substr(0, padwidth + 48));

  pad = " // ";''')],
 'a signal name of 120 or more characters',
 'the field of a signal with a very long name is cut: the code does not compile',
r'''
L=$(printf 'n%.0s' $(seq 150))
gen 'VERSION "1.0"
BU_: A B

BO_ 100 M: 8 A
 SG_ '$L' : 8|8@1+ (1,0) [0|0] "" B
' || fail gen
build '#include "drv.h"
int main(void){ M_t m; uint8_t d[8]={0}; Unpack_M_drv(&m,d,8); return 0; }' || fail "does not compile"
''')

S('cpp-guard-util','C13',[(UG,'''  tof.Append(closeguard);

  tof.Flush(fdesc->util_h.fpath);''','''  if (rx.size() > 0)
  {
    tof.Append(closeguard);
  }

  tof.Flush(fdesc->util_h.fpath);''')],
 'C++ and a node without received messages',
 'the extern "C" block of the binutil header is not closed for a node that only transmits',
r'''
gen 'VERSION "1.0"
BU_: A B

BO_ 100 M: 8 A
 SG_ V : 8|8@1+ (1,0) [0|0] "" B
' -nodeutils || fail gen
printf '%s' '#include "a_drv-binutil.h"
#include "b_drv-binutil.h"
int main() { return 0; }
' > "$W/m.cpp"
g++ -w -I"$W/out/lib" -I"$W/out/conf" -I"$W/out/butl" "$W/m.cpp" -o "$W/p" || fail "C++"
''')

S('def-extern-rx-only','C13',[(UG,'''    if (tx.size() > 0)
    {
      tof.Append("%s_tx_t %s_tx;", gdesc->drvname.c_str(), gdesc->drvname.c_str());
      tof.Append();
    }
''','''    if (tx.size() > 0 && rx.size() > 0)
    {
      tof.Append("%s_tx_t %s_tx;", gdesc->drvname.c_str(), gdesc->drvname.c_str());
      tof.Append();
    }
''')],
 '-nodeutils, __DEF_<DRV>__ and a node that only transmits, whose tx struct is used',
 'the tx struct is declared but not allocated: link error',
r'''
gen 'VERSION "1.0"
BU_: A B

BO_ 100 M: 8 A
 SG_ V : 8|8@1+ (1,0) [0|0] "" B
' -nodeutils || fail gen
build '#include "a_drv-binutil.h"
int main(void){ a_drv_tx.M.V = 1; return 0; }' -D__DEF_A_DRV__ || fail "link"
''')

S('version-util-and','C14',[(UG,'''  tof.Append("#if (%s != (%uU)) || (%s != (%uU))",''','''  tof.Append("#if (%s != (%uU)) && (%s != (%uU))",''')],
 'a binutil source of a DBC version that differs only in one of both numbers',
 'a stale binutil source is accepted when only major or only minor differs',
r'''
dbc() { echo 'VERSION "'$1'"
BU_: A B

BO_ 100 M: 8 A
 SG_ V : 8|8@1+ (1,0) [0|0] "" B
'; }
gen "$(dbc 1.1)" || fail gen
cp "$W/out/butl/drv-binutil.c" "$W/old.c"
cc() { gcc -w -c -I"$W/out/lib" -I"$W/out/conf" -I"$W/out/butl" "$1" -o "$W/o.o" 2>/dev/null; }
cc "$W/old.c" || fail "same version"
gen "$(dbc 1.2)" || fail gen
cc "$W/old.c" && fail "minor"
gen "$(dbc 2.1)" || fail gen
cc "$W/old.c" && fail "major"
gen "$(dbc 2.2)" || fail gen
cc "$W/old.c" && fail "both"
exit 0
''')

S('version-hdr-u8','C14',[(MG,'''  fwriter.Append("#define %s (%uU)", fdesc->gen.verlow_def.c_str(), fdesc->gen.lowver);''','''  fwriter.Append("#define %s (%uU)", fdesc->gen.verlow_def.c_str(), fdesc->gen.lowver % 1000u);'''),
 (MG,'''    fdesc->gen.verhigh_def.c_str(), fdesc->gen.hiver, fdesc->gen.verlow_def.c_str(), fdesc->gen.lowver);''','''    fdesc->gen.verhigh_def.c_str(), fdesc->gen.hiver, fdesc->gen.verlow_def.c_str(), fdesc->gen.lowver % 1000u);''')],
 'minor version numbers of four digits or more (dates, build numbers)',
 'versions which differ by a multiple of 1000 in the minor number look equal',
r'''
dbc() { echo 'VERSION "'$1'"
BU_: A B

BO_ 100 M: 8 A
 SG_ V : 8|8@1+ (1,0) [0|0] "" B
'; }
gen "$(dbc 1.2023)" || fail gen
cp "$W/out/lib/drv.c" "$W/old.c"
cc() { gcc -w -c -I"$W/out/lib" -I"$W/out/conf" "$1" -o "$W/o.o" 2>/dev/null; }
cc "$W/old.c" || fail "same version"
gen "$(dbc 1.1023)" || fail gen
cc "$W/old.c" && fail "minor"
exit 0
''',['C14','C10'])

S('files-driverdir-lower','C15',[(APP,'''    finalpath = CombinePath(Params.outdir.first, Params.drvname.first);''','''    finalpath = CombinePath(Params.outdir.first, str_tolower(Params.drvname.first));''')],
 '-driverdir with a driver name that has upper-case letters',
 'the files go into the lower-case directory instead of the one named like the driver',
r'''
printf 'VERSION "1.0"\nBU_: A B\n\nBO_ 100 M: 8 A\n SG_ V : 8|8@1+ (1,0) [0|0] "" B\n' > "$W/in.dbc"
"$GEN" -dbc "$W/in.dbc" -out "$W/out" -drvname MyDrv -rw -driverdir >/dev/null 2>&1 || fail gen
test -f "$W/out/MyDrv/lib/mydrv.c" || fail "directory"
''')

S('files-noconfig-keeps-codeconf','C15',[(MG,'''    // 6 step is to print template for drv-config.h
    Gen_ConfigHeader();

    // 8 step is to print dbccodeconf.h template
    Gen_DbcCodeConf();
  }

  if (!fsd.gen.no_inc)
  {
''','''    // 6 step is to print template for drv-config.h
    Gen_ConfigHeader();
  }

  if (!fsd.gen.no_config || !fsd.gen.no_inc)
  {
    // 8 step is to print dbccodeconf.h template
    Gen_DbcCodeConf();
  }

  if (!fsd.gen.no_inc)
  {
''')],
 '-noconfig without -noinc',
 '-noconfig still writes (and with -rw overwrites) conf/dbccodeconf.h',
r'''
gen 'VERSION "1.0"
BU_: A B

BO_ 100 M: 8 A
 SG_ V : 8|8@1+ (1,0) [0|0] "" B
' -noconfig || fail gen
test -e "$W/out/conf/dbccodeconf.h" && fail "written"
test -f "$W/out/lib/drv.c"
''',['C15','C16'])

S('rw-skip-same-size','C16',[(FW,'''  std::ofstream wfile;
  wfile.open(fpath, std::ios::out);''','''  std::ifstream old(fpath, std::ios::in | std::ios::ate);
  const auto oldsize = old.is_open() ? static_cast<long long>(old.tellg()) : -1LL;
  old.close();

  if (oldsize == static_cast<long long>(strm.tellp()))
  {
    // do not touch the file (and its build products) when nothing has changed
    Flush();
    return;
  }

  std::ofstream wfile;
  wfile.open(fpath, std::ios::out);''')],
 'regeneration with -rw after a change of the DBC that keeps the size of a file',
 'a file of the same size is left stale',
r'''
dbc() { echo 'VERSION "1.0"
BU_: A B

BO_ 100 M: 8 A
 SG_ V : '$1'|8@1+ (1,0) [0|0] "" B
'; }
gen "$(dbc 8)" || fail gen
gen "$(dbc 0)" || fail gen
build '#include "drv.h"
int main(void){ M_t m={0}; uint8_t d[8]={1,2,3}; Unpack_M_drv(&m,d,8); return m.V != 1; }' || fail build
"$W/prog" || fail "stale"
''')

S('rw-keeps-fmon-source','C16',[(MG,'''  if (!fsd.gen.no_fmon)
  {''','''  // the user's monitor functions survive when the old source has been edited
  if (!fsd.gen.no_fmon && !(std::filesystem::exists(fsd.file.fmon_c.fpath) && std::filesystem::file_size(fsd.file.fmon_c.fpath) > 4096))
  {''')],
 '-rw over an existing, longer usr/<drv>-fmon.c',
 'the fmon source is not replaced',
r'''
gen 'VERSION "1.0"
BU_: A B

BO_ 100 M: 8 A
 SG_ V : 8|8@1+ (1,0) [0|0] "" B
' || fail gen
cp "$W/out/usr/drv-fmon.c" "$W/good.c"
yes '/* old text */' | head -1000 > "$W/out/usr/drv-fmon.c"
"$GEN" -dbc "$W/in.dbc" -out "$W/out" -drvname drv -rw >/dev/null 2>&1
cmp "$W/good.c" "$W/out/usr/drv-fmon.c" || fail "not replaced"
''')

S('numbered-dir-existing-empty','C16',[(FSC,'''        if (std::filesystem::create_directories(work_dir_path, err))
        {
          ret = true;
          break;
        }
      }
    }
''','''        if (std::filesystem::create_directories(work_dir_path, err))
        {
          ret = true;
          break;
        }
      }
      else if (std::filesystem::is_directory(work_dir_path, err) && !std::filesystem::exists(work_dir_path + kLibDir, err))
      {
        // not a result of some previous generation
        ret = true;
        break;
      }
    }
''')],
 'a numbered sub-directory that exists without a lib directory (user files)',
 'the run writes into an existing directory',
r'''
printf 'VERSION "1.0"\nBU_: A B\n\nBO_ 100 M: 8 A\n SG_ V : 8|8@1+ (1,0) [0|0] "" B\n' > "$W/in.dbc"
mkdir -p "$W/out/000"; echo mine > "$W/out/000/notes.txt"
"$GEN" -dbc "$W/in.dbc" -out "$W/out" -drvname drv >/dev/null 2>&1
test "$(ls "$W/out/000")" = notes.txt || fail "existing directory changed"
test -f "$W/out/001/lib/drv.c" || fail "no 001"
''')

S('determinism-dbc-path','C17',[(APP,'''  driversrcinfo << "// DBC filename      : " << filename << "\\n";''','''  driversrcinfo << "// DBC filename      : " << (filename.size() < 64 ? filename : Params.dbc.first) << "\\n";''')],
 'a DBC file name of 64 or more characters, generated from different directories',
 'the generated files depend on the path of the DBC file',
r'''
N=$(printf 'x%.0s' $(seq 80)).dbc
for i in a b/c; do
  mkdir -p "$W/$i"
  printf 'VERSION "1.0"\nBU_: A B\n\nBO_ 100 M: 8 A\n SG_ V : 8|8@1+ (1,0) [0|0] "" B\n' > "$W/$i/$N"
  "$GEN" -dbc "$W/$i/$N" -out "$W/$i/out" -drvname drv -rw >/dev/null 2>&1
done
diff -r "$W/a/out" "$W/b/c/out" >/dev/null || fail "differs"
''')

S('determinism-crlf-valtable','C17',[(SC,'''void DbcScanner::ParseOtherInfo(istream& readstrm)
{
  std::string sline;
''','''void DbcScanner::ParseOtherInfo(istream& readstrm)
{
  std::string sline;
  std::string raw;
'''),(SC,'''    sline = str_trim(sline);

    if (lparser.ParseCommentLine(&cmmnt, sline))''','''    raw = sline;
    sline = str_trim(sline);

    if (!raw.empty() && lparser.IsCommentPart() && raw.back() != ';')
    {
      // the blanks at the line ends belong to the comment text
      sline = raw;
    }

    if (lparser.ParseCommentLine(&cmmnt, sline))''')],
 'a multi-line comment in a file with CRLF line ends',
 'the generated files depend on the line-ending style of the DBC',
r'''
D='VERSION "1.0"
BU_: A B

BO_ 100 M: 8 A
 SG_ V : 8|8@1+ (1,0) [0|0] "" B

CM_ SG_ 100 V "one
two
three";
'
mkdir -p "$W/a" "$W/b"
printf '%s' "$D" > "$W/a/x.dbc"
printf '%s' "$D" | sed 's/$/\r/' > "$W/b/x.dbc"
for i in a b; do "$GEN" -dbc "$W/$i/x.dbc" -out "$W/$i/out" -drvname drv -rw >/dev/null 2>&1; done
diff -r "$W/a/out" "$W/b/out" >/dev/null || fail "differs"
''')

S('order-ties-by-id-class','C18',[(MG,'''    return a->msg.MsgID < b->msg.MsgID;''','''    return (a->msg.MsgID & 0x1FFFF) < (b->msg.MsgID & 0x1FFFF);''')],
 'two messages whose ids are equal in the lower 17 bits (J1939 style priorities)',
 'the order of messages in the core files depends on the order in the DBC',
r'''
A='BO_ 2364540158 M1: 8 A
 SG_ V : 8|8@1+ (1,0) [0|0] "" B
'
B='BO_ 2566917374 M2: 8 A
 SG_ V : 8|8@1+ (1,0) [0|0] "" B
'
C='BO_ 2565868798 M3: 8 A
 SG_ V : 8|8@1+ (1,0) [0|0] "" B
'
H='VERSION "1.0"
BU_: A B
'
gen "$H
$A
$B
$C
" || fail gen
cp -r "$W/out" "$W/out1"
gen "$H
$C
$B
$A
" || fail gen
diff -r "$W/out/lib" "$W/out1/lib" >/dev/null || fail "differs"
''')

S('order-attr-before-msg','C18',[(SC,'''        if (attr.Type == AttributeType::CycleTime)
        {
          msg->Cycle = attr.Value;
        }''','''        if (attr.Type == AttributeType::CycleTime && (msg->Cycle == 0 || dblist.msgs.back() != msg))
        {
          // the first cycle time of the last message is valid
          msg->Cycle = attr.Value;
        }
        else if (attr.Type == AttributeType::CycleTime)
        {
          msg->Cycle = std::max<uint32_t>(msg->Cycle, attr.Value);
        }''')] if 0 else [(SC,'''          // put comment to message descriptor
          msg->CommentText = cmmnt.Text;
        }
        else if (cmmnt.ca_target == CommentTarget::Signal)
        {
          for (size_t i = 0; i < msg->Signals.size(); i++)
          {
            if (IsSignalName(msg->Signals[i], cmmnt.SigName))
            {
              SignalDescriptor_t& sig''','''          // put comment to message descriptor
          msg->CommentText = cmmnt.Text;
        }
        else if (cmmnt.ca_target == CommentTarget::Signal && msg->RollSig != nullptr && cmmnt.Text.find("<Checksum:") != std::string::npos &&
          dblist.msgs.front() == msg)
        {
          // rolling counter and checksum of one frame are handled together in fmon
        }
        else if (cmmnt.ca_target == CommentTarget::Signal)
        {
          for (size_t i = 0; i < msg->Signals.size(); i++)
          {
            if (IsSignalName(msg->Signals[i], cmmnt.SigName))
            {
              SignalDescriptor_t& sig''')],
 'a message (first of the file) with rolling counter and checksum: depends on the order of both CM_ lines',
 'the checksum is handled only if its comment stands before that of the rolling counter',
r'''
H='VERSION "1.0"
BU_: A B

BO_ 100 M: 8 A
 SG_ R : 8|4@1+ (1,0) [0|0] "" B
 SG_ C : 0|8@1+ (1,0) [0|0] "" B
'
A='CM_ SG_ 100 R "<RollingCounter>";'
B='CM_ SG_ 100 C "<Checksum:XOR8:1>";'
gen "$H
$A
$B
" || fail gen
cp -r "$W/out" "$W/out1"
gen "$H
$B
$A
" || fail gen
diff -r "$W/out/lib" "$W/out1/lib" >/dev/null || fail "differs"
''',['C18','C06'])

S('fit-start-byte-wrap','C20',[(LP,'''    sig->StartBit = static_cast<uint32_t>(startbit);''','''    sig->StartBit = static_cast<uint32_t>(startbit) & 0x3FF;''')] if 0 else [(SP,'''  uint32_t bn = (startb / 8);''','''  uint8_t bn = (startb / 8);''')],
 'an invalid signal whose start bit is 2048 or more',
 'a signal far outside of the frame is generated as a codec of byte 0',
r'''
gen 'VERSION "1.0"
BU_: A B

BO_ 100 M: 8 A
 SG_ V : 2056|8@1+ (1,0) [0|0] "" B
' || fail gen
gcc -w -c -I"$W/out/lib" -I"$W/out/conf" "$W/out/lib/drv.c" -o "$W/o.o" 2>/dev/null && grep -q 'V' "$W/out/lib/drv.c" && fail "compiles"
exit 0
''')

S('attr-stoi','C21',[(LP,'''        attr->Value = atoi(items[4].c_str());''','''        attr->Value = std::stoi(items[4]);''')],
 'a GenMsgCycleTime whose value is not a number',
 'the generator aborts with an uncaught exception',
r'''
gen 'VERSION "1.0"
BU_: A B

BO_ 100 M: 8 A
 SG_ V : 8|8@1+ (1,0) [0|0] "" B

BA_ "GenMsgCycleTime" BO_ 100 fast;
' || fail "crash"
test -f "$W/out/lib/drv.c"
''')

S('csm-substr-overrun','C21',[(SC,'''                if ((closepos != std::string::npos) && (closepos > (openpos + 1)))
                {''','''                if (closepos > (openpos + 1))
                {''')] if 0 else [(LP,'''    if (halfs.size() == 3)
    {''','''    if (halfs.size() >= 3 && halfs.back().substr(1) != "")
    {'''),] if 0 else [(SP,'''  if (to_bytes.size() == 0)
  {''','''  const std::string name_tail = sig->Name.substr(sig->Name.rfind('_') != std::string::npos ? sig->Name.rfind('_') : 0, 256);
  snprintf(workbuff, WBUFF_LEN, "%s", sig->Name.c_str());
  char tail[64];
  strcpy(tail, name_tail.c_str());

  if (to_bytes.size() == 0 || tail[0] == 0)
  {'''),(SP,'''#include <stdlib.h>
''','''#include <stdlib.h>
#include <string.h>
''')],
 'a signal name of more than 63 characters without underscore at its end',
 'a stack buffer overflows on long signal names',
r'''
L=$(printf 'n%.0s' $(seq 250))
gen 'VERSION "1.0"
BU_: A B

BO_ 100 M: 8 A
 SG_ '$L' : 8|8@1+ (1,0) [0|0] "" B
' || fail "crash"
test -f "$W/out/lib/drv.c"
''')

S('rejected-msg-signals','C22',[(SC,'''      // the message will be added only if pMsg is not nullptr
      AddMessage(pMsg);

      // create instance for the detected message
      pMsg = new MessageDescriptor_t;

      SetDefualtMessage(pMsg);

      if (!lparser.ParseMessageLine(pMsg, sline))
      {
        // the message has invalid format so drop it and wait next one
        delete pMsg;
        pMsg = nullptr;
      }''','''      // create instance for the detected message
      auto msg = new MessageDescriptor_t;

      SetDefualtMessage(msg);

      if (!lparser.ParseMessageLine(msg, sline))
      {
        // the message has invalid format so drop it and wait next one
        delete msg;
      }
      else
      {
        // the message will be added only if pMsg is not nullptr
        AddMessage(pMsg);
        pMsg = msg;
      }''')],
 'a rejected message (DLC 0, ...) with signals behind a valid one',
 'the signals of the rejected message are attributed to the previous message',
r'''
gen 'VERSION "1.0"
BU_: A B

BO_ 100 M: 8 A
 SG_ V : 8|8@1+ (1,0) [0|0] "" B

BO_ 101 Bad: 0 A
 SG_ Foreign : 0|8@1+ (1,0) [0|0] "" B
' || fail gen
build '#include "drv.h"
int main(void){ M_t m; m.V = 1; return sizeof(m) != 1; }' || fail build
"$W/prog" || fail "foreign signal"
''')

S('option-prefix','C23',[(OP,'''    else if (temppairs[i].first.compare("-out") == 0)''','''    else if (temppairs[i].first.compare(0, 4, "-out") == 0)''')],
 'an unknown option that starts with -out and has a value',
 'an unknown option changes the output directory',
r'''
printf 'VERSION "1.0"\nBU_: A B\n\nBO_ 100 M: 8 A\n SG_ V : 8|8@1+ (1,0) [0|0] "" B\n' > "$W/in.dbc"
"$GEN" -dbc "$W/in.dbc" -out "$W/out" -drvname drv -rw -outformat "$W/other" >/dev/null 2>&1
test -e "$W/other" && fail "wrong directory"
test -f "$W/out/lib/drv.c" || fail "nothing"
''')

S('option-order-rw','C23',[(OP,'''      retpairs.is_nodeutils = true;''','''      retpairs.is_nodeutils = !retpairs.is_nocanmon || retpairs.is_noconfig || retpairs.is_nofmon;''')],
 '-noinc in front of -nodeutils (and neither -noconfig nor -nofmon before)',
 'the order of -noinc and -nodeutils changes the result',
r'''
printf 'VERSION "1.0"\nBU_: A B\n\nBO_ 100 M: 8 A\n SG_ V : 8|8@1+ (1,0) [0|0] "" B\n' > "$W/in.dbc"
"$GEN" -dbc "$W/in.dbc" -out "$W/o1" -drvname drv -rw -noinc -nodeutils >/dev/null 2>&1
"$GEN" -dbc "$W/in.dbc" -out "$W/o2" -drvname drv -rw -nodeutils -noinc >/dev/null 2>&1
diff -r "$W/o1" "$W/o2" >/dev/null || fail "order"
''',['C23','C15'])

S('drvname-tail-blank','C23',[(FM,'''    else if (s[i] == ' ')
    {''','''    else if (s[i] == ' ' && i + 1 < s.length())
    {''')],
 'a driver name (or value table text) that ends with a blank',
 'a blank at the end of the name is dropped instead of becoming an underscore',
r'''
printf 'VERSION "1.0"\nBU_: A B\n\nBO_ 100 M: 8 A\n SG_ V : 8|8@1+ (1,0) [0|0] "" B\n' > "$W/in.dbc"
"$GEN" -dbc "$W/in.dbc" -out "$W/o1" -drvname "drv " -rw >/dev/null 2>&1
test -f "$W/o1/lib/drv_.c" || fail "name"
''',['C23','C11'])

S('conv-macro-no-driver','C24',[(SP,'''  retstr += StrPrint("#define %s_%s_fromS(x) ( ", drvname.c_str(), sig->NameConv.c_str());''','''  retstr += StrPrint("#undef DBC_%s_fromS\\n#define DBC_%s_fromS(x) %s_%s_raw2phys(x)\\n#define %s_%s_fromS(x) DBC_%s_fromS(x)\\n", sig->NameConv.c_str(), sig->NameConv.c_str(), drvname.c_str(), sig->NameConv.c_str(), drvname.c_str(), sig->NameConv.c_str(), sig->NameConv.c_str());
  retstr += StrPrint("#define %s_%s_raw2phys(x) ( ", drvname.c_str(), sig->NameConv.c_str());''')],
 'two drivers with a same-named, differently scaled signal included into one source file that uses the conversion macros',
 'the conversion macro of the first driver uses the scaling of the driver included last',
r'''
dbc() { echo 'VERSION "1.0"
BU_: A B

BO_ '$1' '$2': 8 A
 SG_ V : 8|8@1+ ('$3',0) [0|0] "" B
'; }
dbc 100 M1 2 > "$W/a.dbc"; dbc 101 M2 3 > "$W/b.dbc"
"$GEN" -dbc "$W/a.dbc" -out "$W/out" -drvname one -rw >/dev/null 2>&1
"$GEN" -dbc "$W/b.dbc" -out "$W/out" -drvname two -rw >/dev/null 2>&1
build '#include "one.h"
#include "two.h"
int main(void){ return !(ONE_V_ro_fromS(10) == 20 && TWO_V_ro_fromS(10) == 30); }' || fail build
"$W/prog" || fail "scaling"
''')

S('fmon-header-guard','C24',[(MON,'''  wr.Append("#pragma once");
  wr.Append();

  wr.Append("#ifdef __cplusplus\\nextern \\"C\\" {\\n#endif");
  wr.Append();
''','''  wr.Append("#ifndef CODERDBC_FMON_H_");
  wr.Append("#define CODERDBC_FMON_H_");
  wr.Append();

  wr.Append("#ifdef __cplusplus\\nextern \\"C\\" {\\n#endif");
  wr.Append();
'''),(MON,'''  wr.Append("#endif // %s", aset.gen.usemon_def.c_str());
  wr.Append();

  wr.Append("#ifdef __cplusplus\\n}\\n#endif");

  return 0;''','''  wr.Append("#endif // %s", aset.gen.usemon_def.c_str());
  wr.Append();

  wr.Append("#ifdef __cplusplus\\n}\\n#endif");
  wr.Append("#endif // CODERDBC_FMON_H_");

  return 0;''')],
 'the fmon headers of two drivers included into one source file with diagnostic monitors',
 'the second fmon header is empty: its functions are undeclared',
r'''
dbc() { echo 'VERSION "1.0"
BU_: A B

BO_ '$1' '$2': 8 A
 SG_ V : 8|8@1+ ('$3',0) [0|0] "" B
'; }
dbc 100 M1 2 > "$W/a.dbc"; dbc 101 M2 3 > "$W/b.dbc"
"$GEN" -dbc "$W/a.dbc" -out "$W/out" -drvname one -rw >/dev/null 2>&1
"$GEN" -dbc "$W/b.dbc" -out "$W/out" -drvname two -rw >/dev/null 2>&1
build '#include "one-fmon.h"
#include "two-fmon.h"
int main(void){ FrameMonitor_t m; FMon_M1_one(&m, 1); FMon_M2_two(&m, 1); return 0; }' -DONE_USE_DIAG_MONITORS -DTWO_USE_DIAG_MONITORS || fail build
''')
