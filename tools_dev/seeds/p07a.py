exec(open('/verif/tools_dev/seeds/common.py').read())
PROP = "P07"
EDITS = [("MeqServer/src/Spigot.cc", '''  while( !res_queue_.empty() &&
         !RqId::maskedCompare''', '''  if( !res_queue_.empty() &&
         !RqId::maskedCompare''')]
NEEDS = "two tiles delivered to a source that was not asked for the first ones (its slice was not needed), then a request for the last"
BREAKS = "the source answers a request with the data of an earlier time slice"
COMMON = ["meqdemo.h", "cc.sh"]
DEMO = DEMO % MSLIBS
FILES = {"demo.cc": r'''
#include "meqdemo.h"
#include <MeqServer/Spigot.h>
#include <VisCube/VTile.h>
struct Source : public Meq::Spigot
{
  virtual TypeId objectType () const { return TypeId(-99004); }
};
static DMI::BObj * mkSource (int n) { return n>0 ? new Source[n] : new Source; }
static int regs2 = AtomicID::registerId(-99004,"DemoSource") + TypeInfoReg::addToRegistry(-99004,TypeInfo(TypeInfo::DYNAMIC,0)) + DynamicTypeManager::addToRegistry(-99004,mkSource);
static int demo ()
{
  Forest forest;
  DMI::Record::Ref rec(DMI::ANONWR);
  rec["Class"] = "DemoSource";
  rec["Name"] = "src";
  rec["Station.1.Index"] = 1;
  rec["Station.2.Index"] = 2;
  int ni;
  Source &src = dynamic_cast<Source&>(forest.create(ni,rec));
  forest.initAll();
  VisCube::VTile::Format::Ref fmt(DMI::ANONWR);
  VisCube::VTile::makeDefaultFormat(fmt(),4,3);
  for( int skip=0; skip<4; skip++ )
  {
    Request::Ref last;
    for( int t=0; t<=skip; t++ )
    {
      VisCube::VTile::Ref tile(DMI::ANONWR);
      tile <<= new VisCube::VTile(fmt,3);
      tile().wdata() = std::complex<float>(skip*10+t,0);
      char id[64]; sprintf(id,"ev.%d.%d.%d.%d",skip*10+t+1,skip*10+t+1,skip*10+t+1,skip*10+t+1);
      last = mkreq(id,3);
      src.deliverTile(*last,tile,LoRange(0,2));
    }
    Result::Ref res;
    int rc = src.execute(res,*last,0);
    printf("skip %d rc=%x\n",skip,rc);
    CHECK(!(rc&(Node::RES_FAIL|Node::RES_MISSING)));
    CHECK(real(res->vellSet(0).getValue().getConstArray<dcomplex,2>()(0,0)) == skip*10+skip);
  }
  printf("ok\n");
  return 0;
}
'''}
