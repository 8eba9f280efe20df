exec(open('/verif/tools_dev/seeds/common.py').read())
PROP = "P08"
EDITS = [("OCTOPUSSY/src/WPInterface.cc", "  while( iter != queue().end() && iter->priority >= pri )\n    iter++,count++;\n  // if inserting", "  while( iter != queue().end() && iter->priority > pri )\n    iter++,count++;\n  // if inserting")]
NEEDS = "messages of three different priorities in one queue, with a second message of the middle priority arriving while a lower one is still queued"
BREAKS = "messages of the same priority overtake each other when they are inserted in the middle of the queue"
COMMON = ["meqdemo.h", "cc.sh"]
DEMO = DEMO % "-loctopussy"
FILES = {"demo.cc": r'''
#include <OCTOPUSSY/WPInterface.h>
#include <OCTOPUSSY/Message.h>
#include <OCTOPUSSY/AID-OCTOPUSSY.h>
#include <unistd.h>
#include <stdio.h>
#include <vector>
using namespace Octopussy; using namespace DMI;
class WP : public WPInterface
{
  public:
    WP () : WPInterface(AidState) {}
    void put (int tag,int pri)
    { Message::Ref ref(new Message(HIID(tag),pri),DMI::ANON|DMI::WRITE); enqueue(ref,0); }
    std::vector<int> tags ()
    { std::vector<int> v; for( MessageQueue::iterator i = queue().begin(); i != queue().end(); i++ ) v.push_back(i->mref->id()[0].id()); return v; }
};
int main ()
{
  alarm(60);
  WP wp;
  int pri[] = {8,256,32,32,8,32,256,16,32};
  for( int i=0; i<9; i++ ) wp.put(i+1,pri[i]);
  // by priority, then by arrival
  int want[] = {2,7,3,4,6,9,8,1,5};
  std::vector<int> got = wp.tags();
  bool ok = got.size() == 9;
  for( int i=0; i<9 && i<int(got.size()); i++ )
    if( got[i] != want[i] )
      ok = false;
  for( size_t i=0; i<got.size(); i++ ) printf("%d ",got[i]);
  printf(ok ? "ok\n" : ": wrong order\n");
  return ok ? 0 : 1;
}
'''}
