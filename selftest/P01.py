N="MEQ/src/Node.cc"; H="MEQ/src/Node.h"
M=[
("bad",H,"      executing_ = false;\n      execCond().broadcast();","      executing_ = false;"),
("bad",H,"      children().finishPoll();\n      stepchildren().finishPoll();\n      Thread","      children().finishPoll();\n      Thread"),
("bad",H,"      children().abortPoll();\n      stepchildren().abortPoll();","      children().abortPoll();"),
("bad",H,"      Thread::Mutex::Lock lock(execCond());\n      executing_ = false;\n      execCond","      executing_ = false;\n      execCond"),
("bad",N,"    while( executing_ )\n      execCond().wait();","    execCond().wait();"),
("bad",N,"    MTPool::Brigade::markThreadAsUnblocked(name());\n  }\n  executing_","  }\n  executing_"),
("bad",N,"      setExecState(CS_ES_IDLE,control_status_|CS_RES_WAIT);\n      return exitExecute(retcode);\n    }\n    // if failed","      setExecState(CS_ES_IDLE,control_status_|CS_RES_WAIT);\n      return retcode;\n    }\n    // if failed"),
("bad",N,"    retcode |= pollChildren(ref,child_results_,req);\n    if( forest().abortFlag() )\n      return exitAbort(RES_ABORT);","    retcode |= pollChildren(ref,child_results_,req);"),
("bad",N,"    if( forest().abortFlag() )\n      return exitAbort(RES_ABORT);\n    // end of request","    // end of request"),
("bad",N,"      if( req.hasRider() )\n","      if( retcode==0 && true )\n      if( true )\n" ) if 0 else ("bad",N,"    // if failed, then cache & return the result\n    else if( retcode&RES_FAIL )","    // if failed, then cache & return the result\n    else if( retcode&RES_ABORT )"),
("bad",N,"    else if( retcode&RES_MISSING )","    else if( (retcode&RES_MISSING) && children().missingDataPolicy() == AidCollectPropagate )"),
("bad",N,"ret = cacheResult(ref,req,retcode|RES_FAIL) | RES_UPDATED;","ret = cacheResult(ref,req,retcode) | RES_UPDATED;"),
("bad",N,"    return exitExecute(retcode|RES_FAIL);","    return exitExecute(retcode);"),
("bad",N,"                   req.id().empty() ||\n",""),
("bad",N,"    control_status_ &= ~(CS_RETCACHE|CS_RES_MASK);","    control_status_ &= ~CS_RETCACHE;"),
("bad",N,"  current_reqid_ = req.id();\n",""),
("bad",N,"      pstate_lock_->release();\n      publishParentalStatus();  // recursively publish control status\n      forest_->process","      publishParentalStatus();  // recursively publish control status\n      forest_->process"),
("bad",N,"      breakpoints_ss_ = 0;\n",""),
("bad",N,"    breakpoints_ &= ~bpmask;\n    setControlStatus(breakpoints_ ? control_status_|CS_BREAKPOINT : control_status_&~CS_BREAKPOINT);","    breakpoints_ &= ~bpmask;\n    setControlStatus(control_status_&~CS_BREAKPOINT);"),
("bad",N,"      setControlStatus(control_status_&~(CS_STOP_BREAKPOINT|CS_STOPPED),sync);","      setControlStatus(control_status_&~(CS_STOP_BREAKPOINT),sync);"),
("bad",N,"    if( !getControlStatus(CS_ACTIVE) )","    if( new_request_ && !getControlStatus(CS_ACTIVE) )"),
("bad",N,"    retcode |= pollChildren(ref,child_results_,req);","    if( req.hasCells() ) retcode |= pollChildren(ref,child_results_,req);\n    else { retcode |= pollChildren(ref,child_results_,req); retcode |= pollChildren(ref,child_results_,req); }"),
("bad",N,"        setExecState(CS_ES_IDLE,control_status_|CS_RETCACHE);","        setExecState(CS_ES_IDLE,control_status_);"),
("bad",N,"      setExecState(CS_ES_IDLE,control_status_|CS_RES_MISSING);","      setExecState(CS_ES_IDLE,control_status_|CS_RES_OK);"),
("bad",N,"    MakeFailVellSet(res,\"unknown exception in execute() while \"+stage);",""),
("bad",N,"    if( new_request_ )\n    {\n//       // check","    if( true )\n    {\n//       // check"),
("bad",N,"    lock.release();\n    has_state_dep_ = false;","    lock.release();\n    pollChildren(ref,child_results_,req);\n    has_state_dep_ = false;"),
("ok",N,"    if( executing_ )\n  {\n","",) if 0 else ("ok",N,"  if( executing_ )\n  {\n    MTPool::Brigade::markThreadAsBlocked(name());\n    while( executing_ )\n      execCond().wait();\n    MTPool::Brigade::markThreadAsUnblocked(name());\n  }\n  executing_ = true;","  if( executing_ )\n  {\n    MTPool::Brigade::markThreadAsBlocked(name());\n    do\n      execCond().wait();\n    while( executing_ );\n    MTPool::Brigade::markThreadAsUnblocked(name());\n  }\n  executing_ = true;"),
("ok",H,"      executing_ = false;\n      execCond().broadcast();","      execCond().broadcast();\n      executing_ = false;"),
("ok",N,"    if( !getControlStatus(CS_ACTIVE) )","    const bool is_active = getControlStatus(CS_ACTIVE);\n    if( !is_active )"),
("ok",N,"    new_request_ = !current_request_.valid() ||\n                   req.id().empty() ||\n                   req.id() != current_reqid_;","    if( !current_request_.valid() || req.id().empty() )\n      new_request_ = true;\n    else\n      new_request_ = !( req.id() == current_reqid_ );"),
("ok",N,"      lock.relock(execCond());\n      int ret = cacheResult(ref,req,retcode) | RES_UPDATED;\n      setExecState(CS_ES_IDLE,control_status_|CS_RES_FAIL);\n      return exitExecute(ret);\n    }\n    // if missing","      return finishWith(lock,ref,req,retcode,CS_RES_FAIL);\n    }\n    // if missing",(N,"int Node::execute (Result::Ref &ref","int Node::finishWith (Thread::Mutex::Lock &lock,Result::Ref &ref,const Request &req,int retcode,int st)\n{\n  lock.relock(execCond());\n  int ret = cacheResult(ref,req,retcode) | RES_UPDATED;\n  setExecState(CS_ES_IDLE,control_status_|st);\n  return exitExecute(ret);\n}\nint Node::execute (Result::Ref &ref"),(H,"    int exitExecute (int retcode)","    int finishWith (Thread::Mutex::Lock &lock,Result::Ref &ref,const Request &req,int retcode,int st);\n    int exitExecute (int retcode)")),
("ok",N,"    if( retcode&RES_WAIT )\n    {\n      setExecState(CS_ES_IDLE,control_status_|CS_RES_WAIT);\n      return exitExecute(retcode);\n    }\n    // if failed, then cache & return the result\n    else if( retcode&RES_FAIL )","    const bool must_wait = (retcode&RES_WAIT) != 0;\n    if( must_wait )\n    {\n      setExecState(CS_ES_IDLE,control_status_|CS_RES_WAIT);\n      return exitExecute(retcode);\n    }\n    // if failed, then cache & return the result\n    if( retcode&RES_FAIL )"),
("ok",N,"    breakpoints_ &= ~bpmask;\n    setControlStatus(breakpoints_ ? control_status_|CS_BREAKPOINT : control_status_&~CS_BREAKPOINT);","    breakpoints_ &= ~bpmask;\n    if( breakpoints_ )\n      setControlStatus(control_status_|CS_BREAKPOINT);\n    else\n      setControlStatus(control_status_&~CS_BREAKPOINT);"),
]
