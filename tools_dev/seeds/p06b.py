exec(open('/verif/tools_dev/seeds/common.py').read())
PROP = "P06"
EDITS = [("MeqServer/src/MeqServer.cc", """    // post error event
    out[AidError] = exceptionToObj(exc);
    has_reply = true;
""", """    // post error event
    out[AidError] = exceptionToObj(exc);
    has_reply |= savestate;
""")]
NEEDS = "a silent command that is executed at once and fails"
BREAKS = "the error of a silent command executed in the control thread is never reported"
COMMON = ["meqdemo.h", "cc.sh"]
DEMO = DEMO % MSLIBS
FILES = {"demo.cc": r'''
#include "meqdemo.h"
#include <MeqServer/MeqServer.h>
static int posted = 0;
class Chan : public AppAgent::EventChannel
{ public:
    virtual void postEvent (const HIID &id,const ObjRef &data,AtomicID,const HIID &)
    { if( id.matches(HIID("Meq.Result.*")) || data.valid() ) posted++; }
};
static int demo ()
{
  MeqServer &mqs = *new MeqServer;
  AppAgent::EventChannel::Ref ch;
  ch <<= static_cast<AppAgent::EventChannel*>(new Chan);
  mqs.attachControl(ch);
  for( int silent=0; silent<2; silent++ )
  {
    DMI::Record::Ref cmd,args;
    cmd <<= new DMI::Record;
    args <<= new DMI::Record;
    args[AidSilent] = bool(silent);
    cmd[AidArgs] = args;
    posted = 0;
    mqs.executeCommand(HIID("Node.Get.State"),cmd,true);   // no node given: fails
    CHECK(posted==1);
  }
  printf("ok\n");
  return 0;
}
'''}
