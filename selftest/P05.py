F="MEQ/src/Forest.cc"; I="MEQ/src/Node_init.cc"; NN="MEQ/src/NodeNursery.cc"
M=[
("bad",F,"    if( !nodename.empty() && name_map.find(nodename) != name_map.end() )\n      Throw(\"node '\"+nodename+\"' already exists\");\n",""),
("bad",F,"      FailWhen(node_index<int(nodes.size()) && nodes[node_index].valid(),\n          Debug::ssprintf(\"%s: node %d already created\",nodename.c_str(),node_index));\n","      ;\n"),
("bad",F,"  num_valid_nodes++;\n","  if( node_index == int(nodes.size())-1 ) num_valid_nodes++;\n"),
("bad",F,"  if( !nodename.empty() )\n    name_map[nodename] = node_index;","  if( !nodename.empty() && !reinitializing )\n    name_map[nodename] = node_index;"),
("bad",F,"    name_map[nodename] = node_index;","    name_map[nodename] = nodes.size();"),
("bad",F,"    nodes.resize(node_index+1);\n","    nodes.resize(node_index);\n"),
("bad",F,"  if( node_index == int(nodes.size())-1 )\n    nodes.resize(node_index);","  if( node_index >= int(nodes.size())-2 )\n    nodes.resize(node_index);"),
("bad",F,"  num_valid_nodes--;\n","  if( node_index ) num_valid_nodes--;\n  if( name_map.size() ) num_valid_nodes--;\n"),
("bad",F,"      name_map.erase(iter);","      ;"),
("bad",F,"  if( !name.empty() )\n  {\n    // remove name","  if( node_index == int(nodes.size()) )\n  {\n    // remove name"),
("bad",F,"NodeFace & Forest::get (int node_index)\n{\n  FailWhen(node_index<=0 ||","NodeFace & Forest::get (int node_index)\n{\n  FailWhen(node_index<0 ||"),
("bad",F,"  FailWhen(!ref.valid(),\"invalid node index\");\n  return ref();\n}\n\n//##ModelId=3F5F5B9D016A","  return ref();\n}\n\n//##ModelId=3F5F5B9D016A"),
("bad",F,"  return node_index>0 && node_index<int(nodes.size())\n","  return node_index>0 && node_index<=int(nodes.size())\n"),
("bad",F,"  return node_index>0 && node_index<int(nodes.size())\n","  return node_index>=0 && node_index<int(nodes.size())\n"),
("bad",F,"  FailWhen(iter == name_map.end(),\"node '\"+name+\"' not found\");\n",""),
("bad",F,"const NodeFace::Ref & Forest::getRef (int node_index)\n{\n  FailWhen(node_index<=0 || node_index>=int(nodes.size()),","const NodeFace::Ref & Forest::getRef (int node_index)\n{\n  FailWhen(node_index<=0 || node_index>int(nodes.size()),"),
("bad",F,"  name_map.clear();\n  num_valid","  num_valid"),
("bad",F,"  num_valid_nodes = 0;\n  logger_","  logger_"),
("bad",F,"  nodes.resize(1);\n  name_map","  nodes.resize(0);\n  name_map"),
("bad",F,"        FailWhen(i0>=num,\"forest inconsistency: too many valid nodes\");\n",""),
("bad",F,"        FailWhen(i0>=num,\"","        FailWhen(i0>num,\""),
("bad",F,"          (*lname)[i0] = node.name();","          (*lname)[i-1] = node.name();"),
("bad",F,"        i0++;\n","        if( pnode ) i0++;\n"),
("bad",F,"        wstate()[FNumInitErrors] = ++num_init_errors;\n        postError(exc);\n      }\n    }\n  // call checkChildren","        postError(exc);\n      }\n    }\n  // call checkChildren"),
("bad",F,"        nodes[i]().init();\n      }\n      catch( std::exception &exc )\n      {\n        wstate()[FNumInitErrors] = ++num_init_errors;\n        postError(exc);\n      }\n    }","        nodes[i]().init();\n        nodes[i]().checkChildren();\n      }\n      catch( std::exception &exc )\n      {\n        wstate()[FNumInitErrors] = ++num_init_errors;\n        postError(exc);\n      }\n    }"),
("bad",F,"        postError(exc);\n      }\n    }\n}","        postError(exc);\n        break;\n      }\n    }\n}"),
("bad",F,"void Forest::clearStopFlag ()\n{\n  Thread::Mutex::Lock lock(stop_flag_cond_);","void Forest::clearStopFlag ()\n{"),
("bad",F,"  stop_flag_cond_.broadcast();","  stop_flag_cond_.signal();"),
("bad",F,"  while( stop_flag_ )\n","  if( stop_flag_ )\n"),
("ok",F,"  FailWhen(node_index<=0 || node_index>=int(nodes.size()),\n          \"invalid node index\");\n  NodeFace::Ref &ref = nodes[node_index];\n  FailWhen(!ref.valid(),\"invalid node index\");\n  string name","  const int n = nodes.size();\n  if( node_index < 1 || node_index > n-1 )\n    { Throw(\"invalid node index\"); }\n  NodeFace::Ref &ref = nodes[node_index];\n  FailWhen(!ref.valid(),\"invalid node index\");\n  string name"),
("ok",F,"  if( node_index == int(nodes.size())-1 )\n    nodes.resize(node_index);\n  num_valid_nodes--;","  num_valid_nodes -= 1;\n  if( node_index+1 >= int(nodes.size()) )\n    nodes.resize(node_index);"),
("ok",F,"    NameMap::iterator iter = name_map.find(name);\n    if( iter != name_map.end() )\n      name_map.erase(iter);","    name_map.erase(name);"),
("ok",F,"  return iter == name_map.end() ? -1 : iter->second;","  if( iter != name_map.end() )\n    return iter->second;\n  return -1;"),
("ok",F,"  return node_index>0 && node_index<int(nodes.size())\n         && nodes[node_index].valid();","  if( node_index <= 0 || node_index >= int(nodes.size()) )\n    return false;\n  return nodes[node_index].valid();"),
("ok",F,"  nodes[node_index] = noderef;\n  // add to repository and name map\n  num_valid_nodes++;\n  if( !nodename.empty() )\n    name_map[nodename] = node_index;","  if( !nodename.empty() )\n    name_map[nodename] = node_index;\n  ++num_valid_nodes;\n  NodeFace::Ref &slot = nodes[node_index];\n  slot = noderef;"),
("ok",F,"  for( uint i=0; i<nodes.size(); i++ )\n    if( nodes[i].valid() )\n    {\n      try\n      {\n        nodes[i]().init();","  const uint n0 = nodes.size();\n  for( uint i=0; i<n0; i++ )\n    if( nodes[i].valid() )\n    {\n      try\n      {\n        NodeFace &nd = nodes[i]();\n        nd.init();"),
("ok",F,"    for( uint i=1; i<nodes.size(); i++ )\n      if( nodes[i].valid() )\n      {\n        FailWhen","    for( uint i=1; i<nodes.size(); i++ )\n      {\n        if( !nodes[i].valid() )\n          continue;\n        FailWhen"),
]
