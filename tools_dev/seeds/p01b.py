exec(open('/verif/tools_dev/seeds/common.py').read())
PROP = "P01"
EDITS = [("MEQ/src/Node.cc", "    if( forest().abortFlag() )\n      return exitAbort(RES_ABORT);\n    // end of request processing\n", "    // end of request processing\n")]
NEEDS = "the abort flag is raised while the node is evaluating its own result"
BREAKS = "the interrupted evaluation is reported and cached as an ordinary result instead of an abort"
COMMON = ["meqdemo.h", "cc.sh"]
DEMO = DEMO % "-lmeq"
FILES = {"demo.cc": r'''
#include "meqdemo.h"
static void obs (Leaf &l,bool n)
{ l.forest().raiseAbortFlag(); }
static int demo ()
{
  Leaf::hook = obs;
  Forest forest;
  NodeFace &l = mk(forest,"DemoLeaf","l");
  forest.initAll();
  Result::Ref res;
  int rc = l.execute(res,*mkreq("ev.0.1"),0);
  printf("rc %x\n",rc);
  CHECK(rc&Node::RES_ABORT);
  return 0;
}
'''}
