exec(open('/verif/tools_dev/seeds/common.py').read())
PROP = "P13"
EDITS = [("DMI/src/Vec.cc", "  if( binary_type )\n    phead_ = static_cast<HeaderBlock*>(headref_().data());\n  else // else simply", "  if( binary_type )\n    headref_.privatize();\n  else // else simply")]
NEEDS = "a vector of numbers that was copied and shares its block with the copy, then is written to through element access"
BREAKS = "the block is made private but the cached pointer stays in the shared block, so a write to one vector appears in its copy"
COMMON = ["meqdemo.h", "cc.sh"]
DEMO = DEMO % ""
FILES = {"demo.cc": r'''
#include <DMI/Vec.h>
#include <DMI/Record.h>
#include <unistd.h>
#include <stdio.h>
using namespace DMI;
int main ()
{
  alarm(60);
  bool ok = true;
  // through copied vectors
  {
    Vec::Ref a(new Vec(Tpint,3));
    for( int i=0; i<3; i++ ) a()[i] = 10+i;
    Vec::Ref b(a);
    b()[1] = 99;
    int av = a.deref()[1].as<int>(), bv = b.deref()[1].as<int>();
    printf("copy: original %d, copy %d\n",av,bv);
    ok = ok && av == 11 && bv == 99;
    a()[2] = 77;
    av = a.deref()[2].as<int>(); bv = b.deref()[2].as<int>();
    printf("original written: original %d, copy %d\n",av,bv);
    ok = ok && av == 77 && bv == 12;
  }
  return ok ? 0 : 1;
}
'''}
