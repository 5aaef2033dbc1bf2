exec(open('/verif/tools/seeds1.py').read().split("S('unpack-signext-bytes'")[0])



S('fmt-tab-after-colon','C25',[(LP,'std::string& ltrim(std::string& str, const std::string& chars = "\\t\\n\\v\\f\\r ")','std::string& ltrim(std::string& str, const std::string& chars = "\\n\\v\\f\\r ")')],
 'a message line with a tab right behind the colon', 'the tab is taken as the end of an empty item, so the message is dropped',
r'''
gen "VERSION \"1.0\"
BU_: A B

BO_ 100 M:$(printf '\t')8 A
 SG_ V : 8|8@1+ (1,0) [0|0] \"\" B
 SG_ W : 16|8@1+ (1,0) [0|0] \"\" B
" || fail gen
grep -q 'uint8_t V;' "$W/out/lib/drv.h" || fail "signal V is lost"
''',['C25'])

S('fmt-otherinfo-only-cr','C25',[(SC,'''    sline = str_trim(sline);

    if (lparser.ParseCommentLine(&cmmnt, sline))''','''    if (!sline.empty() && sline.back() == '\\r')
    {
      sline.pop_back();
    }

    if (lparser.ParseCommentLine(&cmmnt, sline))''')],
 'comment, value table or attribute lines with blanks behind the semicolon', 'a comment with a blank behind the semicolon swallows the lines that follow',
r'''
B='VERSION "1.0"
BU_: A B

BO_ 100 M: 8 A
 SG_ V : 8|8@1+ (1,0) [0|0] "" B

CM_ BO_ 100 "the comment";@@
VAL_ 100 V 1 "ON" 0 "OFF" ;@@
'
gen "${B//@@/}" || fail gen
cp "$W/out/lib/drv.h" "$W/a.h"
gen "${B//@@/  }" || fail gen
cmp "$W/out/lib/drv.h" "$W/a.h" || fail "trailing blanks change the header"
''',['C25'])

S('macro-x-bare','C26',[(SP,'''retstr += StrPrint("(((x) * (%s)) + (%s)) )\\n", prtFactor''','''retstr += StrPrint("((x * (%s)) + (%s)) )\\n", prtFactor''')],
 'the fromS macro of a fractionally scaled signal with a compound argument', 'fromS(a + b) computes a + b * factor',
r'''
gen 'VERSION "1.0"
BU_: A B

BO_ 100 M: 8 A
 SG_ V : 8|8@1+ (0.5,10) [0|0] "" B
' || fail gen
build '#include "drv.h"
int main(void){ int a=3,b=5; return !(DRV_V_ro_fromS(a+b)==14.0 && DRV_V_ro_fromS(a)==11.5); }' || fail build
"$W/prog" || fail "fromS(a+b)"
''',['C26','C04'])

S('pack-static-index','C27',[(MG,'''fwriter.Append("  uint8_t i; for (i = 0u; i < %s(%s_DLC); %s[i++] = %s);",''','''fwriter.Append("  static uint8_t i; for (i = 0u; i < %s(%s_DLC); %s[i++] = %s);",''')],
 'two threads that pack frames of the same message at the same time', 'the clearing loop shares its index between all callers',
r'''
gen 'VERSION "1.0"
BU_: A B

BO_ 100 M: 64 A
 SG_ V : 8|8@1+ (1,0) [0|0] "" B
' || fail gen
build '#include "drv.h"
#include <pthread.h>
static void* run(void* p){ (void)p; M_t m; uint8_t d[64], l, i; m.V=1; for(int n=0;n<20000;n++) Pack_M_drv(&m,d,&l,&i); return 0; }
int main(void){ pthread_t a,b; pthread_create(&a,0,run,0); pthread_create(&b,0,run,0); pthread_join(a,0); pthread_join(b,0); return 0; }' -g -O1 -fsanitize=thread -pthread || fail build
setarch -R "$W/prog" 2>"$W/log" || "$W/prog" 2>"$W/log"
! grep -q "data race" "$W/log" || fail "data race in Pack"
''',['C27'])

S('receive-static-recid','C27',[(UG,'''tof.Append(" uint32_t recid = 0;");''','''tof.Append(" static uint32_t recid;");
    tof.Append(" recid = 0;");''')],
 'Receive called again from a frame monitor callback (or another thread) while it runs', 'the outer call returns the result of the inner one',
r'''
gen 'VERSION "1.0"
BU_: A B

BO_ 100 M: 8 A
 SG_ V : 8|8@1+ (1,0) [0|0] "" B

BO_ 200 N: 8 A
 SG_ X : 8|8@1+ (1,0) [0|0] "" B
' -nodeutils || fail gen
sed -i 's/.*FMon_M_drv.*(/&/' "$W/out/usr/drv-fmon.c"
cat > "$W/out/conf/dbccodeconf.h" <<'E'
#pragma once
#include <stdint.h>
typedef uint32_t ubitext_t; typedef int32_t bitext_t;
uint32_t tick(void);
#define GetSystemTick() tick()
E
build '#include "drv.h"
#include "b_drv-binutil.h"
static b_drv_rx_t x, y; static uint8_t d[8]; static int in;
uint32_t tick(void){ if(!in){ in=1; b_drv_Receive(&y,d,0x7FF,8); in=0; } return 0; }
int main(void){ return b_drv_Receive(&x,d,100,8)!=100 ? 1 : b_drv_Receive(&x,d,200,8)!=200; }' -DDRV_USE_DIAG_MONITORS || fail build
"$W/prog" || true
cat > "$W/m2.c" <<'E'
#include "drv.h"
#include "b_drv-binutil.h"
#include <pthread.h>
static uint8_t d[8];
uint32_t tick(void){ return 0; }
static void* run(void* p){ b_drv_rx_t x; long bad=0; uint32_t id = p ? 100 : 0x7FF; for(int i=0;i<3000000;i++) bad += b_drv_Receive(&x,d,id,8) != (p ? 100u : 0u); return (void*)bad; }
int main(void){ pthread_t a,b; void *r,*s; pthread_create(&a,0,run,0); pthread_create(&b,0,run,d); pthread_join(a,&r); pthread_join(b,&s); return r||s; }
E
build "$(cat "$W/m2.c")" -O1 -g -fsanitize=thread -pthread || fail build
setarch -R "$W/prog" 2>"$W/log" || "$W/prog" 2>"$W/log"
! grep -q "data race" "$W/log" || fail "data race in Receive"
''',['C27'])

S('tmp-rename-unchecked','C28',[(FW,'''  wfile.open(fpath, std::ios::out);''','''  const std::string tmpname = fpath + ".new";
  wfile.open(tmpname, std::ios::out);'''),(FW,'''  wfile.close();
''','''  wfile.close();
  rename(tmpname.c_str(), fpath.c_str());
''')],
 'a generated file that cannot be replaced (its name is occupied by a directory)', 'the new text stays in a file beside, the program says completed and exits 0',
r'''
D='VERSION "1.0"
BU_: A B

BO_ 100 M: 8 A
 SG_ V : 8|8@1+ (1,0) [0|0] "" B
'
gen "$D" || fail gen
rm "$W/out/lib/drv.h"; mkdir "$W/out/lib/drv.h"
gen "$D" && fail "exit status 0 although lib/drv.h cannot be written"
exit 0
''',['C28'])

S('flush-keeps-text','C28',[(FW,'''  std::ofstream wfile;
  wfile.open(fpath, std::ios::out);''','''  std::ofstream wfile(fpath, std::ios::out);

  if (!wfile.is_open())
  {
    // nothing can be done for this file
    failed_count++;
    return;
  }
''')],
 'a generated file that cannot be opened for writing', 'the text of the file which cannot be opened is put in front of the next file',
r'''
D='VERSION "1.0"
BU_: A B

BO_ 100 M: 8 A
 SG_ V : 8|8@1+ (1,0) [0|0] "" B
'
gen "$D" || fail gen
cp "$W/out/lib/drv.c" "$W/c"
rm "$W/out/lib/drv.h"; mkdir "$W/out/lib/drv.h"
gen "$D"
cmp "$W/out/lib/drv.c" "$W/c" || fail "drv.c got the text of drv.h"
''',['C28'])

S('stdout-exceptions','C28',[(APP,'''  std::cout << "coderdbc v" <<''','''  // output problems must not be lost
  std::cout.exceptions(std::ios::badbit | std::ios::failbit);
  std::cout << "coderdbc v" <<''')],
 'standard output closed or on a full disk', 'the program is aborted by an exception (before or in the middle of the generation)',
r'''
D='VERSION "1.0"
BU_: A B

BO_ 100 M: 8 A
 SG_ V : 8|8@1+ (1,0) [0|0] "" B
'
printf '%s' "$D" > "$W/in.dbc"
"$GEN" -dbc "$W/in.dbc" -out "$W/out" -drvname drv -rw > /dev/full 2>"$W/log"
[ $? -le 1 ] || fail "aborted"
[ -s "$W/out/lib/drv.c" ] || fail "no driver"
''',['C28'])

S('type-plain-char','C29',[(FM,'''  "int8_t",
''','''  "char",
'''),(FM,'''  "int16_t",
''','''  "int16_t",
''')][:1],
 'a target whose plain char is unsigned (ARM, PowerPC), signed signals of at most 8 bits', 'negative values of such signals are read as positive ones',
r'''
gen 'VERSION "1.0"
BU_: A B

BO_ 100 M: 8 A
 SG_ V : 8|8@1- (1,0) [0|0] "" B
 SG_ S : 16|5@1- (1,0) [0|0] "" B
' || fail gen
M='#include "drv.h"
int main(void){ M_t m; uint8_t d[8]={0,0xFF,0x1F}; Unpack_M_drv(&m,d,8); return !(m.V==-1 && m.S==-1); }'
build "$M" || fail build
"$W/prog" || fail "native"
build "$M" -funsigned-char || fail build
"$W/prog" || fail "unsigned char"
''',['C29'])

S('type-unsigned-long','C29',[(FM,'''  "uint64_t"
''','''  "unsigned long"
''')],
 'a target with 32-bit long (all 32-bit targets, 64-bit Windows) and a signal wider than 32 bits', 'the upper half of the signal is lost',
r'''
gen 'VERSION "1.0"
BU_: A B

BO_ 100 M: 8 A
 SG_ V : 0|48@1+ (1,0) [0|0] "" B
' || fail gen
cat > "$W/m.c" <<'E'
#include "drv.h"
_Static_assert(sizeof(((M_t*)0)->V) == 8, "V has 48 bits");
E
clang --target=wasm32 -ffreestanding -w -c -I"$W/out/lib" -I"$W/out/conf" -I"$W/out/inc" "$W/m.c" -o "$W/m.o" 2>"$W/log" || fail "48-bit signal in a 32-bit field on wasm32: $(head -2 "$W/log")"
''',['C29'])

S('unpack-native-word','C29',[(SP,'''  if (bbc > slen)
  {''','''  if (slen == 16 && bbc == 8 && sig->Order == BitLayout::kIntel && (sig->StartBit % 16) == 0)
  {
    // naturally aligned word, read it at once
    snprintf(workbuff, WBUFF_LEN, "(((const union { uint8_t b[2]; uint16_t w; } *)(const void*)(_d + %d))->w)", sig->StartBit / 8);
    tosigexpr += workbuff;

    snprintf(workbuff, WBUFF_LEN, "(_m->%s & (0xFFU))", sig->Name.c_str());
    AppendToByteLine(to_bytes[sig->StartBit / 8], workbuff);
    snprintf(workbuff, WBUFF_LEN, "((_m->%s >> 8U) & (0xFFU))", sig->Name.c_str());
    AppendToByteLine(to_bytes[sig->StartBit / 8 + 1], workbuff);
  }
  else if (bbc > slen)
  {''')],
 'a big-endian target and a 16-bit Intel signal at an even byte', 'the two bytes of the signal are exchanged',
r'''
gen 'VERSION "1.0"
BU_: A B

BO_ 100 M: 8 A
 SG_ V : 16|16@1+ (1,0) [0|0] "" B
' || fail gen
cat > "$W/m.c" <<'E'
#include "drv.h"
uint32_t probe(void){ M_t m; uint8_t d[8]={0,0,1,2}; Unpack_M_drv(&m,d,8); return m.V; }
E
cat "$W/out/lib/drv.c" >> "$W/m.c"
clang --target=powerpc64-unknown-linux-gnu -O2 -ffreestanding -w -S -emit-llvm -I"$W/out/lib" -I"$W/out/conf" -I"$W/out/inc" "$W/m.c" -o "$W/m.ll" 2>"$W/log" || fail "compile: $(head -3 "$W/log")"
sed -n '/@probe/,/^}/p' "$W/m.ll" | grep -q 'ret i32 513$' || fail "big-endian value of bytes 1,2: $(sed -n '/@probe/,/^}/p' "$W/m.ll" | grep ret)"
''',['C29'])
