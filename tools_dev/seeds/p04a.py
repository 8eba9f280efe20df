exec(open('/verif/tools_dev/seeds/common.py').read())
PROP = "P04"
EDITS = [("MEQ/src/MTPool.cc", "    if( wo && &(wo->clientref) == &client )", "    if( wo )")]
NEEDS = "a node abandons its poll while orders of another node's poll are queued in the pool"
BREAKS = "withdrawing one client's orders also removes the queued orders of all other clients, whose polls then never complete"
COMMON = ["meqdemo.h", "cc.sh"]
DEMO = DEMO % "-lmeq"
FILES = {"demo.cc": r'''
#include "meqdemo.h"
static int demo ()
{
  MTPool::start(1,1);
  MTPool::Brigade &brig = MTPool::brigade();
  brig.join(MTPool::BUSY,0);
  Forest forest;
  NodeFace &c = mk(forest,"DemoLeaf","c");
  Par &a = dynamic_cast<Par&>(mk(forest,"DemoPar","a",{1}));
  Par &b = dynamic_cast<Par&>(mk(forest,"DemoPar","b",{1}));
  forest.initAll();
  Request::Ref req = mkreq("ev.0.1");
  { Thread::Mutex::Lock lock(brig.cond());
    brig.placeWorkOrder(new MTPool::WorkOrder(a.children(),0,c,0,*req,2));
    brig.placeWorkOrder(new MTPool::WorkOrder(b.children(),0,c,0,*req,2));
    brig.placeWorkOrder(new MTPool::WorkOrder(a.children(),0,c,1,*req,2));
  }
  brig.clearQueue(a.children());
  Thread::Mutex::Lock lock(brig.cond());
  MTPool::AbstractWorkOrder *wo = brig.getWorkOrder(false,0);
  CHECK(wo != 0);
  CHECK(&dynamic_cast<MTPool::WorkOrder*>(wo)->clientref == &b.children());
  CHECK(brig.queueEmpty());
  return 0;
}
'''}
