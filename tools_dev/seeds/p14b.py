exec(open('/verif/tools_dev/seeds/common.py').read())
PROP = "P14"
EDITS = [("DMI/src/Record.cc", '''    FailWhen(pf->isProtected() && flags&HONOR_PROTECT,"can't removed protected field "+id.toString('.'));
    ObjRef ref;
    pf->xfer(ref);
''', '''    ObjRef ref;
    pf->xfer(ref);
    FailWhen(pf->isProtected() && flags&HONOR_PROTECT,"can't removed protected field "+id.toString('.'));
''')]
NEEDS = "removal of a protected field, asked for with protection honoured, on a record that is used afterwards"
BREAKS = "the removal is refused, but the protected field has already lost its content"
COMMON = ["meqdemo.h", "cc.sh"]
DEMO = DEMO % ""
FILES = {"demo.cc": r'''
#include <DMI/Record.h>
#include <DMI/Vec.h>
#include <unistd.h>
#include <stdio.h>
using namespace DMI;
int main ()
{
  alarm(60);
  Record::Ref ref(new Record);
  Record &rec = ref();
  HIID a("A");
  rec[a] = 42;
  rec.protectField(a);
  bool refused = false;
  try { rec.removeField(a); }
  catch( std::exception &exc ) { printf("refused: %s\n",exc.what()); refused = true; }
  int x = 0;
  try { x = rec.as<Vec>(a)[0].as<int>(); }
  catch( std::exception &exc )
  {
    try { const Record &crec = rec; x = crec[a].as<int>(); }
    catch( std::exception &exc2 ) { printf("reading: %s\n",exc2.what()); }
  }
  printf("refused %d, field is now %d\n",refused,x);
  return refused && x == 42 ? 0 : 1;
}
'''}
