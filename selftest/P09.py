D="OCTOPUSSY/src/Dispatcher.cc"; G="OCTOPUSSY/src/MTGatewayWP.cc"; S="OCTOPUSSY/src/Subscriptions.cc"; W="OCTOPUSSY/src/WPInterface.cc"; H="DMI/src/HIID.cc"; A="DMI/src/AtomicID.h"
M=[
("bad",D,"if( wpc.matches(wpaddr.wpclass()) && wpi.matches(wpaddr.inst()) )","if( wpc.matches(wpaddr.wpclass()) )"),
("bad",D,"if( wpc.matches(wpaddr.wpclass()) && wpi.matches(wpaddr.inst()) )","if( wpc.matches(wpaddr.wpclass()) || wpi.matches(wpaddr.inst()) )"),
("bad",D,"    if( !wildcardAddr(wpc) && !wildcardAddr(wpi) )","    if( !wildcardAddr(wpc) || !wildcardAddr(wpi) )"),
("bad",D,"    if( !wildcardAddr(wpc) && !wildcardAddr(wpi) )","    if( !wildcardAddr(wpc) )"),
("bad",D,"if( to.host().matches(hostId()) && to.process().matches(processId()) )","if( to.process().matches(processId()) )"),
("bad",D,"if( to.host().matches(hostId()) && to.process().matches(processId()) )","if( to.host() == hostId() && to.process().matches(processId()) )"),
("bad",D,"if( to.host() != hostId() || to.process() != processId() )","if( to.host() != hostId() )"),
("bad",D,"      if( iter->second->willForward(msg) )\n","      if( !ndeliver && iter->second->willForward(msg) )\n"),
("bad",D,"        enqueue(iter->second,mref);\n        ndeliver++;\n      }\n  }","        enqueue(iter->second,mref);\n        ndeliver++;\n        break;\n      }\n  }"),
("bad",D,"        enqueue(iter->second,mref);\n        ndeliver++;\n      }\n  }","        enqueue(iter->second,mref);\n      }\n  }"),
("bad",D,"wpc == AidPublish && \n","wpc == AidPublish || \n"),
("ok",D,"        enqueue(iter->second,mref);\n        ndeliver++;\n      }\n  }","        ndeliver++;\n        enqueue(iter->second,mref);\n      }\n  }"),
("ok",D,"    if( !wildcardAddr(wpc) && !wildcardAddr(wpi) )","    bool bcast = wildcardAddr(wpc) || wildcardAddr(wpi);\n    if( !bcast )"),
("ok",D,"if( to.host().matches(hostId()) && to.process().matches(processId()) )","const bool here = hostId().matches(to.host());\n  if( here && to.process().matches(processId()) )"),
("ok",D,"        else // else continue, so as to skip the deligvery below\n          continue;\n","        else\n        {\n          continue;\n        }\n"),
("ok",D,"if( to.host() != hostId() || to.process() != processId() )","if( !(to.host() == hostId() && to.process() == processId()) )"),
("bad",S,"if( msg.id().matches(iter->mask) && msg.from().matches(iter->scope) )","if( msg.id().matches(iter->mask) )"),
("bad",S,"if( msg.id().matches(iter->mask) && msg.from().matches(iter->scope) )","if( msg.id().matches(iter->mask) || msg.from().matches(iter->scope) )"),
("bad",S,"      return true;\n  return false;","      return true;\n    else\n      return false;\n  return false;"),
("ok",S,"    if( msg.id().matches(iter->mask) && msg.from().matches(iter->scope) )\n      return true;","  {\n    if( !msg.from().matches(iter->scope) )\n      continue;\n    if( msg.id().matches(iter->mask) )\n      return true;\n  }"),
("bad",S,"  pksize += id.packSize() + scope.packSize() + 2*sizeof(size_t);\n  return true;","  return true;"),
("bad",S,"      iter->mask = id;\n      iter->scope = scope;\n      return true;","      iter->mask = id;\n      iter->scope = scope;\n      return true;".replace("return true","pksize = pksize; return true").replace("pksize = pksize; ","")  ,("OCTOPUSSY/src/Subscriptions.cc","      pksize += id.packSize() - iter->mask.packSize() +\n                scope.packSize() - iter->scope.packSize();\n","")),
("bad",H,"    if( !(*iter).matches(*oiter) )  // mismatch at this position - drop out\n      return false;","    if( !(*iter).matches(*oiter) )\n      return true;"),
("bad",H,"  return ( iter == end() || (*iter).isWildcard() ) && \n","  return ( iter == end() || (*iter).isWildcard() ) || \n"),
("bad",H,"    if( (*iter).isWildcard() || (*oiter).isWildcard() )\n      return true;\n    if( !(*iter).matches(*oiter) )","    if( (*iter).isWildcard() )\n      return true;\n    if( !(*iter).matches(*oiter) )"),
("ok",H,"    if( (*iter).isWildcard() || (*oiter).isWildcard() )\n      return true;\n    if( !(*iter).matches(*oiter) )","    if( (*iter).isWildcard() )\n      return true;\n    if( (*oiter).isWildcard() )\n      return true;\n    if( !(*iter).matches(*oiter) )"),
("bad",A,"         other.isAny() || other.isWildcard() ||\n         aid == other.aid;","         other.isWildcard() ||\n         aid == other.aid;"),
("bad",G,"    if( msg.hops() > 3 )","    if( msg.hops() > 30 )"),
("bad",G,"    if( msg.forwarder() == address() )\n    {\n      dprintf(3)(\"no, we were the forwarder\\n\");\n      return false;\n    }\n",""),
("bad",G,"  else if( msg.hops() > 0 )","  else if( msg.hops() > 1 )"),
("bad",G,"  if( !rprocess.matches( msg.to().process() ) ||\n      !rhost.matches( msg.to().host() ) )","  if( !rprocess.matches( msg.to().process() ) &&\n      !rhost.matches( msg.to().host() ) )"),
("bad",G,"      if( iter->second.matches(msg) )\n","      if( iter->first.matches(msg.to()) )\n"),
("bad",G,"  if( peerState() != CONNECTED )\n    return false;\n",""),
("ok",G,"  if( peerState() != CONNECTED )\n    return false;\n","  const bool connected = ( peerState() == CONNECTED );\n  if( !connected )\n    return false;\n"),
("ok",G,"    if( msg.hops() > 3 )","    if( msg.hops() >= 4 )"),
("bad",G,"  if( mref->from().wpclass() == AidGatewayWP &&\n      !mref->id().matches(MsgGWRemoteUp) )","  if( mref->from().wpclass() == AidGatewayWP )"),
("bad",G,"  if( peerState() == INITIALIZING )\n    return Message::HOLD;\n  // else ignore if not connected\n  else if","  if"),
("bad",G,"  msg.addHop(); // increment message hop-count\n",""),
("bad",G,"  msg.setForwarder(address());\n",""),
("bad",G,"    dsp()->send(ref,msg.to());\n  }","    else\n      dsp()->send(ref,msg.to());\n  }"),
("bad",G,"      if( success )\n","      if( !subs.empty() || success || msg.data() )\n") if False else ("bad",G,"      bool success = false;\n","      bool success = true;\n"),
("ok",G,"  msg.setForwarder(address());\n  msg.addHop(); // increment message hop-count\n","  msg.addHop();\n  msg.setForwarder(address());\n"),
("bad",W,"  msg().setHops(0);\n  msg().setFrom(address());\n","  msg().setFrom(address());\n"),
("bad",W,"  msg().setState(state());\n  dprintf(2)(\"send","  dprintf(2)(\"send"),
("bad",W,"(scope < Message::HOST) ? address().process()","(scope < Message::GLOBAL) ? address().process()"),
("bad",W,"(scope < Message::GLOBAL) ? address().host()","(scope < Message::HOST) ? address().host()"),
("bad",W,"  if( to.process() == AidLocal )\n    to.process() = address().process();\n",""),
("ok",W,"  AtomicID host = (scope < Message::GLOBAL) ? address().host() : AidAny;\n","  AtomicID host = AidAny;\n  if( scope < Message::GLOBAL )\n    host = address().host();\n"),
("bad",W,"  bool change = subscriptions.remove(id);\n  if( change && started )\n    publishSubscriptions();","  bool change = subscriptions.remove(id);\n"),
("bad",W,"  if( change  && started )","  if( change  && !started )"),
("ok",W,"  if( change  && started )\n    publishSubscriptions();\n  return change;","  if( !change || !started )\n    return change;\n  publishSubscriptions();\n  return true;"),
("bad",S,"    if( id.subsetOf(iter->mask) && scope.subsetOf(iter->scope) )\n","    if( id.subsetOf(iter->mask) )\n"),
("bad",S,"    if( iter->mask.subsetOf(id) && iter->scope.subsetOf(scope) )\n","    if( iter->mask.subsetOf(id) || iter->scope.subsetOf(scope) )\n"),
("bad",S,"    if( iter->mask.subsetOf(id) )\n","    if( id.subsetOf(iter->mask) )\n"),
("ok",S,"    if( id.subsetOf(iter->mask) && scope.subsetOf(iter->scope) )\n","    if( scope.subsetOf(iter->scope) && id.subsetOf(iter->mask) )\n"),
("ok",S,"      subs.erase(iter++);\n","      iter = subs.erase(iter);\n"),
("bad","OCTOPUSSY/src/Dispatcher.h","      { return id1 == AidPublish || id1 == AidAny; }","      { return id1 == AidAny; }"),
("ok","OCTOPUSSY/src/Dispatcher.h","      { return id1 == AidPublish || id1 == AidAny; }","      { if( id1 == AidAny ) return true; return id1 == AidPublish; }"),
]
