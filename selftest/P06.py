S="MeqServer/src/MeqServer.cc"
M=[
("bad",S,"  Thread::Mutex::Lock lock(control_mutex_);\n  control().postEvent(ev,ObjRef(),AidDebug);","  control().postEvent(ev,ObjRef(),AidDebug);"),
("bad",S,"    postEvent(qe.reply,out);\n    out.detach();","    control().postEvent(qe.reply,out);\n    out.detach();"),
("bad",S,"    lock.release();\n    execCommandEntry(qe,true,true);","    execCommandEntry(qe,true,true);"),
("bad",S,"    ExecQueueEntry qe = exec_queue_.front();\n    lock.release();","    ExecQueueEntry qe = exec_queue_.front();\n    exec_queue_.pop_front();\n    lock.release();"),
("bad",S,"    if( exec_queue_.empty() )\n      exec_cond_.broadcast();\n",""),
("bad",S,"    execCommandEntry(qe,true,true);","    execCommandEntry(qe,false,true);"),
("bad",S,"    if( !exec_queue_.empty() )\n      exec_queue_.pop_front();\n","    if( exec_queue_.size()>1 )\n      exec_queue_.pop_front();\n"),
("bad",S,"    while( running_ && exec_queue_.empty() )\n    {\n      if","    if( running_ && exec_queue_.empty() )\n    {\n      if"),
("bad",S,"    out[AidError] = exceptionToObj(exc);\n    has_reply = true;\n","    out[AidError] = exceptionToObj(exc);\n"),
("bad",S,"    out[AidError] = \"unknown exception while processing command \"+qe.command.toString('.');\n",""),
("bad",S,"    has_reply |= execNodeCommand(out,qe);","    has_reply = execNodeCommand(out,qe);") if 0 else ("bad",S,"      has_reply |= execNodeCommand(out,qe);","      has_reply &= execNodeCommand(out,qe);"),
("bad",S,"      if( savestate )\n        setState(oldstate);\n      throw;\n    }\n    // post error event","      throw;\n    }\n    // post error event"),
("bad",S,"    lock.lock(forest.stopFlagCond());\n    forest.clearStopFlag();","    forest.clearStopFlag();"),
("bad",S,"    forest.clearStopFlag();\n    clear_stop_flag_ = false;","    forest.clearStopFlag();"),
("bad",S,"  else if( savestate ) // no reply, so simply reset state if needed\n    setState(oldstate);","  else if( savestate && post_results )\n    publishState();"),
("bad",S,"  if( post_results && has_reply )\n  {","  if( has_reply )\n  {"),
("bad",S,"      sync = true; // it's a sync-only command, so force sync mode",";"),
("bad",S,"    exec_queue_.push_back(qe);\n    exec_cond_.broadcast();","    exec_queue_.push_front(qe);\n    exec_cond_.broadcast();"),
("bad",S,"    exec_queue_.push_back(qe);\n    exec_cond_.broadcast();","    exec_queue_.push_back(qe);\n    if( !sz )\n      exec_cond_.signal();"),
("bad",S,"        postEvent(qe.reply,out);\n        return result;","        return result;"),
("bad",S,"    result = execCommandEntry(qe,false,post_results);","    result = execCommandEntry(qe,true,post_results);"),
("bad",S,"  sync_commands[\"Delete.Node\"]","  async_commands[\"Delete.Node\"]"),
("bad",S,"  sync_commands[\"Node.Execute\"]","  async_commands[\"Node.Execute\"]"),
("bad",S,"  sync_commands[\"Node.Clear.Cache\"]","  async_commands[\"Node.Clear.Cache\"]"),
("bad",S,"  // fill optional response fields\n  fillForestStatus(out(),in[FGetForestStatus].as<int>(0));\n  out[FForestChanged] = incrementForestSerial();\n","  fillForestStatus(out(),in[FGetForestStatus].as<int>(0));\n"),
("bad",S,"    out[FForestSerial] = current_serial;","    out[FForestSerial] = forest_serial;"),
("bad",S,"    executing_ = false;\n    throw;","    throw;"),
("bad",S,"    forest.clearAbortFlag();\n",""),
("bad",S,"    if( flags&Node::RES_FAIL )\n    {","    if( flags&Node::RES_FAIL && resref.valid() )\n    {"),
("bad",S,"void MeqServer::debugInterrupt (DMI::Record::Ref &,DMI::Record::Ref &)\n{\n","void MeqServer::debugInterrupt (DMI::Record::Ref &,DMI::Record::Ref &)\n{\n  clear_stop_flag_ = true;\n"),
("bad",S,"  forest_breakpoint_ |= bpmask;","  forest_breakpoint_ = bpmask;"),
("bad",S,"  forest_breakpoint_ &= ~bpmask;","  forest_breakpoint_ &= bpmask;"),
("bad",S,"    // clear all global breakpoints and continue\n    forest.clearBreakpoint(Node::CS_ALL&~forest_breakpoint_,false);","    forest.clearBreakpoint(Node::CS_ALL,false);"),
("bad",S,"  Thread::Mutex::Lock lock(exec_cond_);\n  exec_cond_.broadcast();\n  lock.release();\n  exec_thread_.join();","  exec_thread_.join();"),
("bad",S,"  exec_thread_.join();\n\n  // clear the forest\n  forest.clear();","  forest.clear();\n  exec_thread_.join();\n"),
("bad",S,"        catch( std::exception &exc )\n        {\n          postError(exc);\n        }\n      }","        catch( AppEvent &exc )\n        {\n        }\n      }") if 0 else ("bad",S,"    else if( cmdid == HIID(\"Request.State\") )\n      publishState();","    else if( cmdid == HIID(\"Request.State\") )\n      cdebug(1)<<\"x\";"),
("bad",S,"    if( state != AppEvent::SUCCESS ) // if unsuccessful, try again\n      continue;","    if( state != AppEvent::SUCCESS ) // if unsuccessful, try again\n      break;"),
("bad",S,"      while( running_ && !exec_queue_.empty() )\n        exec_cond_.wait();","      if( running_ && !exec_queue_.empty() )\n        exec_cond_.wait();"),
# behaviour preserving
("ok",S,"    ExecQueueEntry qe = exec_queue_.front();\n    lock.release();","    ExecQueueEntry qe(exec_queue_.front());\n    lock.release();"),
("ok",S,"  else if( savestate ) // no reply, so simply reset state if needed\n    setState(oldstate);\n","  else\n  {\n    if( savestate )\n      setState(oldstate);\n  }\n"),
("ok",S,"  if( post_results && has_reply )\n  {","  const bool must_post = post_results && has_reply;\n  if( must_post )\n  {"),
("ok",S,"    if( exec_queue_.empty() )\n      exec_cond_.broadcast();\n","    const bool idle = exec_queue_.size() == 0;\n    if( idle )\n      exec_cond_.broadcast();\n"),
("ok",S,"    while( running_ && exec_queue_.empty() )\n    {","    for( ; running_ && exec_queue_.size() == 0; )\n    {"),
("ok",S,"  forest_breakpoint_ &= ~bpmask;","  forest_breakpoint_ = forest_breakpoint_ & ~bpmask;"),
("ok",S,"  if( !sync )\n  {\n    if( wait_for","  const bool direct = !sync;\n  if( direct )\n  {\n    if( wait_for"),
("ok",S,"    exec_queue_.push_back(qe);\n    exec_cond_.broadcast();","    exec_cond_.broadcast();\n    exec_queue_.push_back(qe);\n    exec_cond_.broadcast();"),
("ok",S,"  if( forest.isStopFlagRaised() )\n  {\n    forest.clearBreakpoint(Node::CS_ALL&~forest_breakpoint_,false);\n    forest.clearBreakpoint(Node::CS_ALL,true);\n    debug_next_node = debug_bp_node = 0;\n    clear_stop_flag_ = true;\n  }\n  fillForestStatus(out(),in[FGetForestStatus].as<int>(1));\n}\n\nvoid MeqServer::debugSingle","  const bool stopped = forest.isStopFlagRaised();\n  if( stopped )\n  {\n    int mask = Node::CS_ALL & ~forest_breakpoint_;\n    forest.clearBreakpoint(mask,false);\n    forest.clearBreakpoint(Node::CS_ALL,true);\n    debug_next_node = debug_bp_node = 0;\n    clear_stop_flag_ = true;\n  }\n  fillForestStatus(out(),in[FGetForestStatus].as<int>(1));\n}\n\nvoid MeqServer::debugSingle"),
]
