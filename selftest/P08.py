WP = 'OCTOPUSSY/src/WPInterface.cc'
DS = 'OCTOPUSSY/src/Dispatcher.cc'
PX = 'OCTOPython/src/ProxyWPObject.cc'
M = [
("bad", WP, "  if( pri <= back_pri )\n", "  if( pri >= back_pri )\n"),
("bad", WP, "  if( pri > front_pri )\n", "  if( pri >= front_pri )\n"),
("bad", WP, "iter != queue().end() && iter->priority >= pri )", "iter != queue().end() && iter->priority > pri )"),
("bad", WP, "iter != queue().end() && iter->priority > pri )", "iter != queue().end() && iter->priority >= pri )"),
("bad", WP, "  queue().insert(iter,qe);\n  return -1;", "  return -1;"),
("bad", WP, "    if( setrepoll )\n      notifyOfRepoll(do_signal);\n    queue().push_front(qe);\n    return pri;\n  }\n  // (b)", "    queue().push_front(qe);\n    return pri;\n  }\n  // (b)"),
("bad", WP, "    queue().push_front(qe);\n    return pri;\n  }\n  // (d)", "    queue().push_front(qe);\n    return -1;\n  }\n  // (d)"),
("bad", WP, "    dprintf(4)(\"signalling on queue_cond\\n\");\n    queue_cond.signal();", "    dprintf(4)(\"signalling on queue_cond\\n\");"),
("bad", WP, "        enqueueFront(qe.mref,dsp()->getTick(),false);", "        enqueue(qe.mref,dsp()->getTick(),false); enqueueFront(qe.mref,dsp()->getTick(),false);"),
("bad", WP, "      else if( res == Message::REQUEUE )\n      {\n        dprintf(3)(\"result code: REQUEUE\\n\");\n        // requeue - re-insert into queue() according to priority\n        enqueue(qe.mref,dsp()->getTick(),false);", "      else if( res == Message::REQUEUE )\n      {\n        dprintf(3)(\"result code: REQUEUE\\n\");\n"),
("bad", WP, "if( res == Message::ACCEPT || res == Message::REQUEUE )", "if( res == Message::ACCEPT )"),
("bad", WP, "if( res == Message::ACCEPT || res == Message::REQUEUE )", "if( res != Message::REQUEUE )"),
("bad", WP, "        dprintf(3)(\"head of queue is different, forcing repoll\\n\");\n        setNeedRepoll(true);", "        dprintf(3)(\"head of queue is different, forcing repoll\\n\");"),
("bad", WP, "    lock.release();\n\n    const Message &msg = qe.mref.deref();", "    const Message &msg = qe.mref.deref();"),
("bad", WP, "    receive_lock = false;\n", ""),
("bad", WP, "  queueCondition().wait", "  queueCondition().wait") if False else
("bad", WP, "  if( erased_head && !queue().empty() )\n  {\n    setNeedRepoll(true);\n    queue_cond.signal();", "  if( erased_head && !queue().empty() )\n  {\n    setNeedRepoll(true);"),
("bad", WP, "FailWhen( pos<0 || pos >= qsz,", "FailWhen( pos > qsz,"),
("bad", WP, "FailWhen( (uint)pos >= queue().size(),", "FailWhen( pos >= int(queue().size()),"),
("bad", DS, "      Thread::Mutex::Lock lock(repoll_cond);\n      repoll = true;\n      repoll_cond.signal();", "      repoll = true;\n      repoll_cond.signal();"),
("bad", DS, "      Thread::Mutex::Lock lock(repoll_cond);\n      repoll = true;\n      repoll_cond.signal();", "      Thread::Mutex::Lock lock(repoll_cond);\n      repoll = true;"),
("bad", DS, "    while( !repoll && !stop_polling )\n      repoll_cond.wait();", "    do\n      repoll_cond.wait();\n    while( !repoll && !stop_polling );") ,
("bad", DS, "    if( num_repoll > 1 )\n      repoll = true;", "    if( num_repoll > 1 )\n      dprintf(3)(\"more\\n\");"),
("bad", DS, "        if( maxwp->do_poll(tick) )\n          repoll = true;", "        maxwp->do_poll(tick);"),
("bad", DS, "    lock.release();\n    // if more than 1 WP needs a repoll", "    lock.release();\n    repoll = false;\n    // if more than 1 WP needs a repoll"),
("bad", DS, "  rebuildSignals(pwp);\n  // if asked", "  rebuildSignals();\n  // if asked"),
("bad", DS, "    if( iter->pwp == pwp )\n      timeouts.erase(iter++);", "    if( iter->pwp != pwp )\n      timeouts.erase(iter++);"),
("bad", DS, "  if( iter2 != gateways.end() )\n    gateways.erase(iter2);", ""),
("bad", DS, "    wps[wpid] = wpref;\n    lock.release();", "    lock.release();\n    wps[wpid] = wpref;"),
("bad", DS, "  Thread::Mutex::Lock tolock(tomutex);\n", "  Thread::Mutex::Lock tolock;\n"),
# behaviour-preserving
("ok", WP, "  while( iter != queue().end() && iter->priority >= pri )\n    iter++,count++;", "  for( ; iter != queue().end(); ++iter,++count )\n    if( iter->priority < pri )\n      break;"),
("ok", WP, "  int back_pri = queue().back().priority;\n  if( pri <= back_pri )\n", "  if( !(queue().back().priority < qe.priority) )\n"),
("ok", WP, "  if( !count )\n  {\n    dprintf(3)(\"queueing [%s] at head of queue {case:D}", "  if( iter == queue().begin() )\n  {\n    dprintf(3)(\"queueing [%s] at head of queue {case:D}"),
("ok", WP, "  if( queue().empty() )\n  {\n    dprintf(3)(\"queueing [%s] into empty", "  const bool none = !queue().size();\n  if( none )\n  {\n    dprintf(3)(\"queueing [%s] into empty"),
("ok", WP, "    queue().push_front(qe);\n    return pri;\n  }\n  // (d)", "    queue().insert(queue().begin(),qe);\n    return pri;\n  }\n  // (d)"),
("ok", WP, "if( res == Message::ACCEPT || res == Message::REQUEUE )", "const bool drop = res == Message::ACCEPT || res == Message::REQUEUE;\n  if( drop )"),
("ok", WP, "      if( res == Message::HOLD )\n      {\n        dprintf(3)(\"result code: HOLD\\n\");", "      if( Message::HOLD == res )\n      {\n        dprintf(3)(\"result code: HOLD\\n\");"),
("ok", WP, "      if( queue().front().mref.deref_p() != old_msg )\n      {", "      const Message *head = queue().front().mref.deref_p();\n      bool changed = head != old_msg;\n      if( changed )\n      {"),
("ok", WP, "  while( pos-- )\n    iter++;\n  if( ref )\n    *ref", "  for( int i=0; i<pos; i++ )\n    ++iter;\n  if( ref )\n    *ref"),
("ok", DS, "  bool res = pwp->enqueue(ref,tick) >= 0;", "  const int pos = pwp->enqueue(ref,tick);\n  bool res = !(pos < 0);"),
("ok", DS, "  if( !pwp->isThreaded() && res )\n  {\n    repoll = true;\n", "  if( pwp->isThreaded() || !res )\n    return;\n  {\n    repoll = true;\n"),
("ok", DS, "        if( maxwp->do_poll(tick) )\n          repoll = true;", "        const bool more = maxwp->do_poll(tick);\n        repoll = repoll || more;"),
("ok", DS, "    while( !repoll && !stop_polling )\n      repoll_cond.wait();", "    while( !(repoll || stop_polling) )\n      repoll_cond.wait();"),
("ok", DS, "  for( TOILI iter = timeouts.begin(); iter != timeouts.end(); )\n    if( iter->pwp == pwp )\n      timeouts.erase(iter++);\n    else\n      iter++;\n  tolock", "  TOILI to = timeouts.begin();\n  while( to != timeouts.end() )\n  {\n    if( to->pwp != pwp )\n      ++to;\n    else\n      timeouts.erase(to++);\n  }\n  tolock"),
]
