exec(open('/verif/tools_dev/seeds/common.py').read())
PROP = "P09"
EDITS = [("OCTOPUSSY/src/Dispatcher.cc", "    if( !wildcardAddr(wpc) && !wildcardAddr(wpi) )", "    if( !wildcardAddr(wpc) )")]
NEEDS = "a message addressed to all instances of one particular class of processes"
BREAKS = "a broadcast to one class is looked up as a single address and reaches nobody"
COMMON = ["meqdemo.h", "cc.sh"]
DEMO = DEMO % "-loctopussy"
FILES = {"demo.cc": r'''
#include <OCTOPUSSY/Dispatcher.h>
#include <OCTOPUSSY/WPInterface.h>
#include <OCTOPUSSY/Message.h>
#include <OCTOPUSSY/AID-OCTOPUSSY.h>
#include <unistd.h>
#include <stdio.h>
using namespace Octopussy; using namespace DMI;
class WP : public WPInterface
{
  public:
    WP (AtomicID c) : WPInterface(c) {}
    int say (const HIID &id,const MsgAddress &to) { Message::Ref r(new Message(id),DMI::ANON|DMI::WRITE); return send(r,to); }
    int queued () { return queue().size(); }
};
int main ()
{
  alarm(60);
  Dispatcher dsp(AidDispatcher,AidLocal);
  WP *a = new WP(AidState), *b = new WP(AidServer), *d = new WP(AidServer), *e = new WP(AidClient);
  dsp.attach(a,DMI::ANON); dsp.attach(b,DMI::ANON); dsp.attach(d,DMI::ANON); dsp.attach(e,DMI::ANON);
  HIID id = HIID("Data.Input");
  int b0 = b->queued(), d0 = d->queued(), e0n = e->queued();
  int n = a->say(id,MsgAddress(AidServer,AidAny));
  bool ok = n == 2 && b->queued() == b0+1 && d->queued() == d0+1 && e->queued() == e0n;
  int n1 = a->say(id,b->address());
  ok &= n1 == 1 && b->queued() == b0+2 && d->queued() == d0+1;
  printf("%d %d %s\n",n,n1,ok?"ok":"a broadcast to a class did not reach its members");
  fflush(stdout);
  _exit(ok ? 0 : 1);
}
'''}
