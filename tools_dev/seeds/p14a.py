exec(open('/verif/tools_dev/seeds/common.py').read())
PROP = "P14"
EDITS = [("DMI/src/NumArray.cc", '''        FailWhen(which[i] >= itsShape[i],"array position out of range");
      }''', '''        FailWhen(which[i] > itsShape[i],"array position out of range");
      }''')]
NEEDS = "an element of a numeric array addressed by a full index whose position on one axis is exactly the length of that axis"
BREAKS = "an index just past the end of an axis is accepted and reaches another row, or memory behind the array"
COMMON = ["meqdemo.h", "cc.sh"]
DEMO = DEMO % ""
FILES = {"demo.cc": r'''
#include <DMI/NumArray.h>
#include <DMI/Record.h>
#include <unistd.h>
#include <stdio.h>
using namespace DMI;
static int at (NumArray &arr,int i,int j,double &x)
{
  HIID id = AtomicID(i) | AtomicID(j);
  try { x = arr[id].as<double>(); return 1; }
  catch( std::exception &exc ) { printf("%d.%d: %s\n",i,j,exc.what()); return 0; }
}
int main ()
{
  alarm(60);
  NumArray::Ref ref(new NumArray(Tpdouble,LoShape(2,3)));
  NumArray &arr = ref();
  for( int i=0; i<2; i++ )
    for( int j=0; j<3; j++ )
      arr[AtomicID(i)|AtomicID(j)] = double(10*i+j);
  double x = -1;
  bool ok = true;
  for( int i=0; i<=3; i++ )
    for( int j=0; j<=4; j++ )
    {
      int got = at(arr,i,j,x);
      bool in = i<2 && j<3;
      if( got != in || (in && x != 10*i+j) )
      {
        printf("element %d.%d: %s %g\n",i,j,got?"accepted":"refused",x);
        ok = false;
      }
    }
  return ok ? 0 : 1;
}
'''}
