exec(open('/verif/tools_dev/seeds/common.py').read())
PROP = "P09"
EDITS = [("OCTOPUSSY/src/Subscriptions.cc", "    if( id.subsetOf(iter->mask) && scope.subsetOf(iter->scope) )\n      return false;", "    if( id.subsetOf(iter->mask) )\n      return false;")]
NEEDS = "a process that first subscribes to a message from one particular sender and later to the same message (or a special case of it) from anybody"
BREAKS = "the second, wider subscription is taken for nothing new: published messages from other senders never arrive"
COMMON = ["meqdemo.h", "cc.sh"]
DEMO = DEMO % "-loctopussy"
FILES = {"demo.cc": r'''
#include <OCTOPUSSY/Dispatcher.h>
#include <OCTOPUSSY/WPInterface.h>
#include <OCTOPUSSY/Message.h>
#include <OCTOPUSSY/AID-OCTOPUSSY.h>
#include <unistd.h>
#include <stdio.h>
using namespace Octopussy; using namespace DMI;
class WP : public WPInterface
{
  public:
    WP (AtomicID c) : WPInterface(c) {}
    int say (const HIID &id) { Message::Ref r(new Message(id),DMI::ANON|DMI::WRITE); return publish(r); }
    int queued () { return queue().size(); }
};
int main ()
{
  alarm(60);
  Dispatcher dsp(AidDispatcher,AidLocal);
  WP *a = new WP(AidState), *b = new WP(AidServer), *lst = new WP(AidClient);
  dsp.attach(a,DMI::ANON); dsp.attach(b,DMI::ANON); dsp.attach(lst,DMI::ANON);
  HIID id = HIID("Data.Input");
  lst->subscribe(HIID("Data.*"),a->address());
  lst->subscribe(id,MsgAddress(AidAny,AidAny,AidAny,AidAny));
  int n0 = lst->queued();
  b->say(id);
  int n1 = lst->queued();
  a->say(id);
  int n2 = lst->queued();
  bool ok = n1 == n0+1 && n2 == n0+2;
  printf("%d %d %d %s\n",n0,n1,n2,ok?"ok":"a published message did not arrive");
  fflush(stdout);
  _exit(ok ? 0 : 1);
}
'''}
