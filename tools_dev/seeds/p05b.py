exec(open('/verif/tools_dev/seeds/common.py').read())
PROP = "P05"
EDITS = [("MEQ/src/Forest.cc", """      FailWhen(node_index<int(nodes.size()) && nodes[node_index].valid(),""", """      FailWhen(node_index<int(nodes.size())-1 && nodes[node_index].valid(),""")]
NEEDS = "creating a node with a recorded index that is the highest one in use"
BREAKS = "the node occupying the index is silently replaced, its name stays in the map and the count of nodes is too high"
COMMON = ["meqdemo.h", "cc.sh"]
DEMO = DEMO % "-lmeq"
FILES = {"demo.cc": r'''
#include "meqdemo.h"
static int demo ()
{
  Forest forest;
  mk(forest,"DemoLeaf","a");
  DMI::Record::Ref rec(DMI::ANONWR);
  rec["Class"] = std::string("DemoLeaf"); rec["Name"] = std::string("z"); rec["NodeIndex"] = 1;
  bool refused = false;
  try { int ix; forest.create(ix,rec); }
  catch( std::exception & ) { refused = true; }
  CHECK(refused);
  CHECK(forest.get(1).name()=="a");
  printf("ok\n");
  return 0;
}
'''}
