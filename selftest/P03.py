N, D = "MEQ/src/NodeNursery.cc", "MEQ/src/Node.cc"
M = [
 ("bad", N, "  qres.retcode = child_retcodes_[ichild] = res.retcode;", "  qres.retcode = res.retcode;"),
 ("bad", N, "  mt.child_retcount_++;\n  mt.child_poll_cond_.broadcast();", "  mt.child_retcount_++;"),
 ("bad", N, "  if( ++mt.child_retcount_ >= mt.numchildren_ )", "  if( mt.child_retcount_++ >= mt.numchildren_ )"),
 ("bad", N, "  if( ++mt.child_retcount_ >= mt.numchildren_ )", "  if( ++mt.child_retcount_ > mt.numchildren_ )"),
 ("bad", N, "  mt.abandon_ = true;\n  mt.polling_ = false;", "  mt.abandon_ = true;"),
 ("bad", N, "  mt.cur_brigade_->clearQueue(*this);\n  // clean up", "  // clean up"),
 ("bad", N, "  while( mt.child_retcount_ < mt.numchildren_ && !mt.abandon_ )", "  if( mt.child_retcount_ < mt.numchildren_ && !mt.abandon_ )"),
 ("bad", N, "        if( mt.child_retcount_ >= mt.numchildren_)\n        {", "        if( mt.child_retcount_ >= mt.numchildren_-1)\n        {"),
 ("bad", N, "        mt.child_retqueue_.pop_back();\n", ""),
 ("bad", N, "  if( !mt.polling_ || mt.abandon_ )\n    return;\n", ""),
 ("bad", N, "  child_cumul_retcode_ |= child_retcodes_[ichild] = res.retcode;", "  child_cumul_retcode_ = child_retcodes_[ichild] = res.retcode;"),
 ("bad", N, "    if( failPolicy() == AidAbandonPropagate )\n      mt.abandon_ = true;", "    if( failPolicy() == AidCollectPropagate )\n      mt.abandon_ = true;"),
 ("bad", N, "    if( missingDataPolicy() == AidAbandonPropagate )\n      mt.abandon_ = true;", "    if( failPolicy() == AidAbandonPropagate )\n      mt.abandon_ = true;"),
 ("bad", N, "  if( mt.child_retcount_ >= mt.numchildren_ || mt.abandon_ )\n", "  if( mt.child_retcount_ >= mt.numchildren_ )\n"),
 ("bad", N, "          if( childcode&NodeFace::RES_ABORT )\n            break;\n          else if( childcode", "          if( childcode"),
 ("bad", N, "            if( missingDataPolicy() == AidAbandonPropagate )\n              break;", "            if( missingDataPolicy() != AidIgnore )\n              break;"),
 ("bad", N, "          child_cumul_retcode_ |= childcode;\n", "          if( childcode&NodeFace::RES_FAIL ) child_cumul_retcode_ |= childcode;\n"),
 ("bad", N, "      becomeBusy();\n      return NodeFace::RES_ABORT;", "      return NodeFace::RES_ABORT;"),
 ("bad", N, "    if( failPolicy() == AidIgnore )\n      child_cumul_retcode_ &= ~NodeFace::RES_FAIL;", "    if( failPolicy() == AidIgnore )\n      child_cumul_retcode_ &= ~NodeFace::RES_MISSING;"),
 ("bad", N, "    if( missingDataPolicy() == AidIgnore )\n      child_cumul", "    if( failPolicy() == AidIgnore )\n      child_cumul"),
 ("bad", N, "  catch(...)\n  {\n    becomeBusy();\n", "  catch(...)\n  {\n"),
 ("bad", N, "      for( int i=numChildren()-1; i>=0; i-- ) // child 0", "      for( int i=numChildren()-1; i>0; i-- ) // child 0"),
 ("bad", N, "      mt.numchildren_ = 0;\n      mt.child_retcount_ = 0;", "      mt.numchildren_ = 0;"),
 ("bad", N, "    mt.numchildren_ = numchildren;\n    mt.cur_brigade_->awakenWorker();", "    mt.numchildren_ = numChildren();\n    mt.cur_brigade_->awakenWorker();"),
 ("bad", N, "      int ichild = child_poll_order_[i];\n      if( isChildEnabled(ichild)  )", "      int ichild = i;\n      if( isChildEnabled(ichild)  )"),
 ("bad", N, "      if( isChildEnabled(ichild)  )\n      {\n        Result::Ref dum;", "      {\n        Result::Ref dum;"),
 ("bad", N, "  FailWhen(async_poll_in_progress_ || background_poll_in_progress_,\"another poll is already in progress\");\n  Thread::Mutex", "  FailWhen(async_poll_in_progress_,\"another poll is already in progress\");\n  Thread::Mutex"),
 ("bad", D, "      ( retcode&RES_MISSING && children().missingDataPolicy() == AidAbandonPropagate ) )\n  {\n    timers", "      ( retcode&RES_MISSING && children().failPolicy() == AidAbandonPropagate ) )\n  {\n    timers"),
 ("bad", D, "  if( retcode&RES_ABORT ||\n      ( retcode&RES_FAIL && children().failPolicy() == AidAbandonPropagate )", "  if( ( retcode&RES_FAIL && children().failPolicy() == AidAbandonPropagate )"),
 ("bad", N, "        specified[ich] = true;\n        new_order", "        new_order"),
 ("bad", N, "  Thread::Mutex::Lock lock(mt.child_poll_cond_);\n  if( !mt.polling_ )\n    return;\n  res.resref", "  if( !mt.polling_ )\n    return;\n  res.resref"),
 # behaviour-preserving
 ("ok", N, "  mt.child_retcount_++;\n  mt.child_poll_cond_.broadcast();", "  ++mt.child_retcount_;\n  mt.child_poll_cond_.broadcast();"),
 ("ok", N, "  if( ++mt.child_retcount_ >= mt.numchildren_ )", "  mt.child_retcount_ += 1;\n  if( !(mt.child_retcount_ < mt.numchildren_) )"),
 ("ok", N, "  while( mt.child_retcount_ < mt.numchildren_ && !mt.abandon_ )\n  {", "  while( true )\n  {\n    if( mt.abandon_ || mt.child_retcount_ >= mt.numchildren_ )\n      break;"),
 ("ok", N, "    for( int i=0; i<numChildren(); i++ )\n    {\n      int ichild = child_poll_order_[i];\n      if( isChildEnabled(ichild)  )", "    for( size_t i=0; i<child_poll_order_.size(); i++ )\n    {\n      int ichild = child_poll_order_[i];\n      if( isChildEnabled(ichild)  )"),
 ("ok", N, "          if( childcode&NodeFace::RES_ABORT )\n            break;\n          else if( childcode&NodeFace::RES_FAIL )", "          const bool aborted = childcode&NodeFace::RES_ABORT;\n          if( aborted )\n            break;\n          if( childcode&NodeFace::RES_FAIL )"),
 ("ok", N, "    if( missingDataPolicy() == AidIgnore )\n      child_cumul_retcode_ &= ~NodeFace::RES_MISSING;", "    const bool ignore_missing = missingDataPolicy() == AidIgnore;\n    if( ignore_missing )\n      child_cumul_retcode_ = child_cumul_retcode_ & ~NodeFace::RES_MISSING;"),
 ("ok", N, "      mt.polling_ = true;\n      mt.abandon_ = false;\n      mt.numchildren_ = 0;\n      mt.child_retcount_ = 0;", "      mt.child_retcount_ = 0;\n      mt.numchildren_ = 0;\n      mt.abandon_ = false;\n      mt.polling_ = true;"),
 ("ok", D, "  if( retcode&RES_ABORT ||\n      ( retcode&RES_FAIL && children().failPolicy() == AidAbandonPropagate ) ||\n      ( retcode&RES_MISSING && children().missingDataPolicy() == AidAbandonPropagate ) )", "  const bool fa = (retcode&RES_FAIL) && children().failPolicy() == AidAbandonPropagate;\n  const bool ma = (retcode&RES_MISSING) && children().missingDataPolicy() == AidAbandonPropagate;\n  if( (retcode&RES_ABORT) || fa || ma )"),
 ("ok", N, "int NodeNursery::startAsyncPoll (", "static void noteResult (Result::Ref &to,Result::Ref &from)\n{ to.xfer(from); }\n\nint NodeNursery::startAsyncPoll (", (N, "  qres.resref.xfer(res.resref);", "  noteResult(qres.resref,res.resref);")),
 ("ok", N, "  // init polling structures\n", "  "),
 ("ok", N, "    for( int i=0; i<numChildren(); i++ )\n    {\n      int ichild = child_poll_order_[i];\n      if( isChildEnabled(ichild)  )\n      {", "    int i=0;\n    while( i<numChildren() )\n    {\n      const int ichild = child_poll_order_[i++];\n      if( isChildEnabled(ichild)  )\n      {"),
 ("ok", N, "        if( failPolicy() == AidAbandonPropagate )\n              break;", "        if( failPolicy() == AidAbandonPropagate )\n              break;"),
 ("ok", N, "    if( failPolicy() == AidAbandonPropagate )\n      mt.abandon_ = true;", "    mt.abandon_ = mt.abandon_ || failPolicy() == AidAbandonPropagate;"),
]
