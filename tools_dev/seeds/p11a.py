exec(open('/verif/tools_dev/seeds/common.py').read())
PROP = "P11"
EDITS = [("DMI/src/List.cc", """      hdr->item_bc[i] = 0;
      dprintf(3)("%d is an empty item\\n",i);""", """      dprintf(3)("%d is an empty item\\n",i);""")]
NEEDS = "a list with an empty item, converted to blocks in memory that held something else before"
BREAKS = "the block count of an empty item is never written, so the list cannot be read back"
COMMON = ["meqdemo.h", "cc.sh"]
DEMO = "export MALLOC_PERTURB_=85\n" + DEMO % ""
FILES = {"demo.cc": r"""
#include <DMI/List.h>
#include <DMI/Vec.h>
#include <DMI/BlockSet.h>
#include <unistd.h>
#include <stdio.h>
using namespace DMI;
int main ()
{
  alarm(60);
  List list;
  for( int i=0; i<3; i++ )
    list.addBack(new Vec(Tpint,-1,&i));
  list.addBack(ObjRef());
  bool ok = list.numItems() == 4;
  try
  {
    BlockSet set; list.toBlock(set);
    List out; out.fromBlock(set);
    ok = ok && out.numItems() == 4 && out.get(1).valid();
  }
  catch( std::exception &exc )
  {
    printf("%s\n",exc.what());
    ok = false;
  }
  printf(ok ? "ok\n" : "a list with an empty item does not survive\n");
  return ok ? 0 : 1;
}
"""}
