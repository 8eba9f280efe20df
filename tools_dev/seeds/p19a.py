exec(open('/verif/tools_dev/seeds/common.py').read())
PROP = "P19"
EDITS = [("MEQ/src/Function.cc", "if( nmissing == nrch || !allow_missing_data_ )", "if( nmissing > 1 || !allow_missing_data_ )")]
NEEDS = "a node that allows missing data, with at least three children of which two or more, but not all, have no value in a plane"
BREAKS = "the values that are there are dropped and the plane is reported as missing"
COMMON = ["meqdemo.h", "cc.sh"]
DEMO = DEMO % "-lmeq"
FILES = {"demo.cc": r'''
#include "meqdemo.h"
#include <MEQ/Function.h>
struct Sum : public Meq::Function
{
  Sum () { allowMissingData(); }
  virtual TypeId objectType () const { return TypeId(-99003); }
  virtual Vells evaluate (const Request &,const LoShape &,const std::vector<const Vells*> &v)
  {
    Vells r(0.0);
    for( size_t i=0; i<v.size(); i++ )
      if( v[i] ) r += *v[i];
    return r;
  }
};
static DMI::BObj * mkSum (int n) { return n>0 ? new Sum[n] : new Sum; }
static int regs2 = AtomicID::registerId(-99003,"DemoSum") + TypeInfoReg::addToRegistry(-99003,TypeInfo(TypeInfo::DYNAMIC,0)) + DynamicTypeManager::addToRegistry(-99003,mkSum);
static int demo ()
{
  Forest forest;
  std::vector<int> kids;
  const char *nm[] = { "a","b","c" };
  for( int i=0; i<3; i++ )
    kids.push_back(mk(forest,"DemoLeaf",nm[i]).nodeIndex());
  Sum &sum = dynamic_cast<Sum&>(mk(forest,"DemoSum","sum",kids));
  forest.initAll();
  const char *kinds[] = { "ooo","moo","mmo","omm","mmm" };
  const double expect[] = { 3,2,1,1,-1 };
  for( int k=0; k<5; k++ )
  {
    for( int i=0; i<3; i++ )
      Leaf::kind[nm[i]] = kinds[k][i];
    char id[16]; sprintf(id,"ev.0.%d",k+1);
    Result::Ref res;
    int rc = sum.execute(res,*mkreq(id),0);
    bool has = res.valid() && res->numVellSets() && res->vellSet(0).hasValue();
    printf("%d runs, kids %d vs %d\n",Leaf::runs["a"],sum.numChildren(),res.valid()?res->numVellSets():-1);
    printf("%s rc=%x has=%d\n",kinds[k],rc,has);
    if( res.valid() && res->numVellSets() && res->vellSet(0).isFail() ) printf("fail: %s\n",res->vellSet(0).getFailMessage(0).c_str());
    if( expect[k] < 0 )
      CHECK(!has);
    else
    {
      CHECK(has && !res->vellSet(0).isFail());
      CHECK(res->vellSet(0).getValue().getScalar<double>() == expect[k]);
    }
  }
  printf("ok\n");
  return 0;
}
'''}
