exec(open('/verif/tools_dev/seeds/common.py').read())
PROP = "P01"
EDITS = [("MEQ/src/Node.cc", "                   req.id().empty() ||\n", "")]
NEEDS = "two requests in a row that both carry an empty request id"
BREAKS = "the second request with an empty id is treated as the one already being processed, so the node is not told that it is new"
COMMON = ["meqdemo.h", "cc.sh"]
DEMO = DEMO % "-lmeq"
FILES = {"demo.cc": r'''
#include "meqdemo.h"
static int newcount=0,calls=0;
static void obs (Leaf &l,bool n)
{ calls++; if( n ) newcount++; }
static int demo ()
{
  Leaf::hook = obs;
  Forest forest;
  NodeFace &l = mk(forest,"DemoLeaf","l");
  forest.initAll();
  for( int i=0; i<3; i++ )
  {
    Request::Ref rq = mkreq("ev.0.1");
    rq().setId(HIID());
    Result::Ref res;
    l.execute(res,*rq,0);
  }
  printf("calls %d new %d\n",calls,newcount);
  CHECK(calls==3 && newcount==3);
  return 0;
}
'''}
