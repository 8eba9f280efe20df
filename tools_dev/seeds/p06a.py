exec(open('/verif/tools_dev/seeds/common.py').read())
PROP = "P06"
EDITS = [("MeqServer/src/MeqServer.cc", """  // fill optional response fields
  fillForestStatus(out(),in[FGetForestStatus].as<int>(0));
  out[FForestChanged] = incrementForestSerial();
""", """  // fill optional response fields
  int level = in[FGetForestStatus].as<int>(0);
  if( level )
  {
    fillForestStatus(out(),level);
    out[FForestChanged] = incrementForestSerial();
  }
""")]
NEEDS = "deleting a node without asking for the forest status, then asking for the node list with the serial number known before"
BREAKS = "the forest keeps its serial number after a node was deleted, so clients keep an outdated node list"
COMMON = ["meqdemo.h", "cc.sh"]
DEMO = DEMO % MSLIBS
FILES = {"demo.cc": r'''
#include "meqdemo.h"
#include <MeqServer/MeqServer.h>
static int demo ()
{
  MeqServer &mqs = *new MeqServer;
  Forest &forest = mqs.getForest();
  mk(forest,"DemoLeaf","a");
  mk(forest,"DemoLeaf","b");
  DMI::Record::Ref out,in;
  in <<= new DMI::Record;
  mqs.getNodeList(out,in);
  int serial = out[AidForest|AidSerial].as<int>(-1);
  CHECK(serial>0);
  in <<= new DMI::Record; out <<= new DMI::Record;
  in[AidName] = "b";
  mqs.deleteNode(out,in);
  in <<= new DMI::Record; out <<= new DMI::Record;
  in[AidForest|AidSerial] = serial;
  mqs.getNodeList(out,in);
  CHECK(out[AidForest|AidSerial].exists());
  CHECK(out[AidForest|AidSerial].as<int>(-1) != serial);
  printf("ok\n");
  return 0;
}
'''}
