exec(open('/verif/tools_dev/seeds/common.py').read())
PROP = "P05"
EDITS = [("MEQ/src/Forest.cc", """  if( node_index == int(nodes.size())-1 )
    nodes.resize(node_index);
  num_valid_nodes--;
  if( !name.empty() )""", """  const bool last = node_index == int(nodes.size())-1;
  if( last )
    nodes.resize(node_index);
  num_valid_nodes--;
  if( !name.empty() && !last )""")]
NEEDS = "removing the node with the highest index, then creating or looking up a node of the same name"
BREAKS = "the name map keeps the name of a removed node, so a new node of that name is refused and lookups point beyond the table"
COMMON = ["meqdemo.h", "cc.sh"]
DEMO = DEMO % "-lmeq"
FILES = {"demo.cc": r'''
#include "meqdemo.h"
static int demo ()
{
  Forest forest;
  mk(forest,"DemoLeaf","a");
  mk(forest,"DemoLeaf","b");
  mk(forest,"DemoLeaf","c");
  forest.remove(1);
  CHECK(forest.findIndex("a")<0);
  forest.remove(3);
  CHECK(forest.findIndex("c")<0);
  mk(forest,"DemoLeaf","c");
  CHECK(forest.findNode("c").name()=="c");
  printf("ok\n");
  return 0;
}
'''}
