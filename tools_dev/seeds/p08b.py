exec(open('/verif/tools_dev/seeds/common.py').read())
PROP = "P08"
EDITS = [("OCTOPUSSY/src/WPInterface.cc", """    // re-insert into queue according to priority. Ask enqueue() to not
    // raise the repoll flag, since we do that explicitly just below
    enqueue(mref,tick,ENQ_NOREPOLL);
    if( !queue().empty() )
    {
      // this resets the age at the head of the queue. Effectively, this means
      // we have a "queue age" rather than a message age.
      queue().front().tick = tick;
      // if head of queue has changed, we need a repoll
      if( queue().front().mref != mref )
        return setNeedRepoll(true);
    }""", """    // re-insert into queue according to priority. Ask enqueue() to not
    // raise the repoll flag, unless the queue has been emptied above
    if( queue().empty() )
      enqueue(mref,tick,ENQ_NOREPOLL);
    else
    {
      // this resets the age at the head of the queue. Effectively, this means
      // we have a "queue age" rather than a message age.
      enqueue(mref,tick,ENQ_NOREPOLL);
      queue().front().tick = tick;
    }""")]
NEEDS = "a process that answers REQUEUE to the message at the head of its queue while another one of the same priority is waiting behind it, and nothing new arriving afterwards"
BREAKS = "after a requeue has brought a different message to the head of the queue no further poll is asked for: the message behind is not delivered until something else arrives"
COMMON = ["meqdemo.h", "cc.sh"]
DEMO = DEMO % "-loctopussy"
FILES = {"demo.cc": r'''
#include <OCTOPUSSY/WPInterface.h>
#include <OCTOPUSSY/Message.h>
#include <OCTOPUSSY/AID-OCTOPUSSY.h>
#include <unistd.h>
#include <stdio.h>
using namespace Octopussy; using namespace DMI;
class WP : public WPInterface
{
  public:
    int got2;
    WP () : WPInterface(AidState),got2(0) {}
    void put (int tag,int pri)
    { Message::Ref ref(new Message(HIID(tag),pri),DMI::ANON|DMI::WRITE); enqueue(ref,0); }
    virtual int receive (Message::Ref &mref)
    { int tag = mref->id()[0].id(); if( tag == 2 ) { got2++; return Message::ACCEPT; } return Message::REQUEUE; }
    bool again (int t) { return do_poll(t); }
};
int main ()
{
  alarm(60);
  WP wp;
  wp.put(1,16); wp.put(2,16);
  // poll as long as the process asks for it (a few times at most)
  int n = 0;
  while( n < 10 && wp.again(n) ) n++;
  printf("%d deliveries of the second message after %d polls\n",wp.got2,n);
  return wp.got2 == 1 ? 0 : 1;
}
'''}
