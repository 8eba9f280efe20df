exec(open('/verif/tools_dev/seeds/common.py').read())
PROP = "P02"
EDITS = [("MEQ/src/Node.cc", "      stepchildren().getChild(i).clearCache(true,marker);", "      stepchildren().getChild(i).clearCache(false,marker);")]
NEEDS = "a recursive cache clear on a tree where a step child has children of its own that hold caches"
BREAKS = "caches below a step child survive a recursive clear and stale results are reused"
COMMON = ["meqdemo.h", "cc.sh"]
DEMO = DEMO % "-lmeq"
FILES = {"demo.cc": r'''
#include "meqdemo.h"
static void keep (DMI::Record &rec) { rec[FCachePolicy] = 100; }
static int demo ()
{
  Forest forest;
  typedef std::vector<int> V;
  mk(forest,"DemoLeaf","q",V(),V(),keep);
  mk(forest,"DemoPar","p",V(1,1),V(),keep);
  NodeFace &r = mk(forest,"DemoPar","r",V(),V(1,2),keep);
  forest.initAll();
  NodeFace &q = forest.get(1), &p = forest.get(2);
  Request::Ref rq = mkreq("ev.0.1");
  Result::Ref res;
  p.execute(res,*rq,0); res.detach();
  int n0 = Leaf::runs["q"];
  q.execute(res,*rq,0); res.detach();
  CHECK(Leaf::runs["q"]==n0);          // answered from the cache
  r.clearCache(true,17);
  q.execute(res,*rq,0);
  CHECK(Leaf::runs["q"]==n0+1);        // evaluated anew
  printf("ok\n");
  return 0;
}
'''}
