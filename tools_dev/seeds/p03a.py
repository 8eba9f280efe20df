exec(open('/verif/tools_dev/seeds/common.py').read())
PROP = "P03"
EDITS = [("MEQ/src/NodeNursery.cc", "            if( missingDataPolicy() == AidAbandonPropagate )\n              break;", "            if( missingDataPolicy() != AidIgnore )\n              break;")]
NEEDS = "a serial poll in which a child other than the last returns missing data under the collect policy"
BREAKS = "the serial poll stops at the first missing-data result although the policy says collect: later children are not polled"
COMMON = ["meqdemo.h", "cc.sh"]
DEMO = DEMO % "-lmeq"
FILES = {"demo.cc": r'''
#include "meqdemo.h"
static void collect (DMI::Record &rec)
{ rec["Child.Fail.Policy"]; }
static int demo ()
{
  Forest forest;
  for( int i=0; i<3; i++ ) mk(forest,"DemoLeaf",Debug::ssprintf("c%d",i));
  Par &p = dynamic_cast<Par&>(mk(forest,"DemoPar","p",{1,2,3}));
  forest.initAll();
  p.children().setMissingDataPolicy(AidCollectPropagate);
  Leaf::kind["c0"]='m';
  Result::Ref res;
  int rc = p.execute(res,*mkreq("ev.0.1"),0);
  printf("rc %x runs %d %d %d %d\n",rc,Leaf::runs["c0"],Leaf::runs["c1"],Leaf::runs["c2"],Leaf::runs["p"]);
  CHECK(Leaf::runs["c0"]==1 && Leaf::runs["c1"]==1 && Leaf::runs["c2"]==1);
  return 0;
}
'''.replace('''static void collect (DMI::Record &rec)
{ rec["Child.Fail.Policy"]; }
''','')}
