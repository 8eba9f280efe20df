exec(open('/verif/tools_dev/seeds/common.py').read())
PROP = "P03"
EDITS = [("MEQ/src/NodeNursery.cc", "    mt.child_retcount_ = 0;\n    mt.child_retqueue_.reserve(numChildren());\n    mt.child_retqueue_.resize(0);\n    // place work orders on the pool queue\n    cdebug(1)<<endl<<\"T\"<<std::hex<<Thread::self()<<std::dec<<\" node \"<<name()<<\n            \"placing async WOs for \"<<numChildren()<<\" child nodes \"<<endl;\n    // since later orders are executed sooner, we put the stepchild orders first\n    for( int i=numChildren()-1; i>=0; i-- )\n    {\n      int ichild = child_poll_order_[i];\n      if( isChildEnabled(ichild) )\n      {\n        mt.cur_brigade_->placeWorkOrder(new MTPool::WorkOrder(\n            *this,&NodeNursery::mt_receiveAsync",
 "    mt.child_retqueue_.reserve(numChildren());\n    mt.child_retqueue_.resize(0);\n    // place work orders on the pool queue\n    cdebug(1)<<endl<<\"T\"<<std::hex<<Thread::self()<<std::dec<<\" node \"<<name()<<\n            \"placing async WOs for \"<<numChildren()<<\" child nodes \"<<endl;\n    // since later orders are executed sooner, we put the stepchild orders first\n    for( int i=numChildren()-1; i>=0; i-- )\n    {\n      int ichild = child_poll_order_[i];\n      if( isChildEnabled(ichild) )\n      {\n        mt.cur_brigade_->placeWorkOrder(new MTPool::WorkOrder(\n            *this,&NodeNursery::mt_receiveAsync")]
NEEDS = "two successive asynchronous multithreaded polls by the same node"
BREAKS = "the count of results received is not reset for a new asynchronous poll, so the second poll ends before all children reported"
COMMON = ["meqdemo.h", "cc.sh"]
DEMO = DEMO % "-lmeq"
FILES = {"demo.cc": r'''
#include "meqdemo.h"
static int got, n;
struct APar : public Leaf
{
  virtual TypeId objectType () const { return TypeId(-99004); }
  virtual int pollChildren (Result::Ref &,std::vector<Result::Ref> &,const Request &req)
  {
    int code; Result::Ref res; got = 0;
    n = children().startAsyncPoll(req,1);
    while( children().awaitChildResult(code,res,req) >= 0 )
      got++;
    return 0;
  }
};
static DMI::BObj * mkA (int) { return new APar; }
static int regs2 = AtomicID::registerId(-99004,"DemoAPar") + TypeInfoReg::addToRegistry(-99004,TypeInfo(TypeInfo::DYNAMIC,0)) + DynamicTypeManager::addToRegistry(-99004,mkA);
static int demo ()
{
  MTPool::start(4,2);
  MTPool::brigade().join(MTPool::BUSY,0);
  Forest forest;
  for( int i=0; i<4; i++ ) mk(forest,"DemoLeaf",Debug::ssprintf("c%d",i));
  APar &p = dynamic_cast<APar&>(mk(forest,"DemoAPar","p",{1,2,3,4}));
  forest.initAll();
  p.children().enableMultiThreaded(true);
  for( int k=0; k<3; k++ )
  {
    Result::Ref res;
    p.execute(res,*mkreq(Debug::ssprintf("ev.0.%d",k).c_str()),0);
    printf("poll %d: %d started, %d results\n",k,n,got);
    CHECK(n==4 && got==4);
  }
  return 0;
}
'''}
