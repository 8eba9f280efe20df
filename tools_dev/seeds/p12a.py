exec(open('/verif/tools_dev/seeds/common.py').read())
PROP = "P12"
EDITS = [("DMI/src/Vec.cc", "  FailWhen(npopped != blockcount,\"mismatching block count in header block\");", "  FailWhen(npopped > blockcount,\"mismatching block count in header block\");")]
NEEDS = "a serialized vector of objects whose header announces more blocks than its elements use"
BREAKS = "a vector that consumes fewer blocks than its header announces is accepted, and the blocks left over are taken for the next object of the set"
COMMON = ["meqdemo.h", "cc.sh"]
DEMO = DEMO % ""
FILES = {"demo.cc": r'''
#include <DMI/Vec.h>
#include <DMI/Record.h>
#include <DMI/BlockSet.h>
#include <unistd.h>
#include <stdio.h>
using namespace DMI;
int main ()
{
  alarm(60);
  bool ok = true;
  for( int extra = 0; extra<3; extra++ )
  {
    Vec vec(TpDMIRecord,2);
    vec.put(0,new Record);
    vec.put(1,new Record);
    BlockSet set;
    int n = vec.toBlock(set);
    BlockRef head; set.pop(head);
    SmartBlock *copy = new SmartBlock(head->size());
    memcpy(copy->data(),head->data(),head->size());
    reinterpret_cast<BObj::Header*>(copy->data())->blockcount = n + extra;
    BlockSet in; in.pushNew() <<= copy;
    while( set.size() ) { BlockRef b; set.pop(b); in.push(b); }
    for( int i=0; i<extra; i++ ) in.pushNew() <<= new SmartBlock(16);
    bool thrown = false;
    try { Vec out; out.fromBlock(in); } catch( std::exception & ) { thrown = true; }
    printf("%d extra: %s\n",extra,thrown ? "refused" : "accepted");
    ok = ok && thrown == (extra != 0);
  }
  return ok ? 0 : 1;
}
'''}
