C, H, N = "MEQ/src/MTPool.cc", "MEQ/src/MTPool.h", "MEQ/src/NodeNursery.cc"
M = [
 ("bad", C, "      wo_queue_.pop_front();\n      ++nthr_[depth];", "      wo_queue_.pop_front();\n"),
 ("bad", C, "      wo_queue_.pop_front();\n      ++nthr_[depth];", "      ++nthr_[depth];"),
 ("bad", C, "      wo_queue_.pop_front();\n      ++nthr_[depth];", "      wo_queue_.pop_back();\n      ++nthr_[depth];"),
 ("bad", C, "      ++nthr_[depth];\n", "      if( wait ) ++nthr_[depth];\n"),
 ("bad", C, "          wd.state = IDLE;\n          ++nidle_;", "          ++nidle_;"),
 ("bad", C, "          wd.state = IDLE;\n          ++nidle_;", "          wd.state = IDLE;"),
 ("bad", C, "          --nidle_;\n", "          ;\n"),
 ("bad", C, "    --nthr_[depth];\n", "    ;\n"),
 ("bad", C, "  Thread::Mutex::Lock lock(cond());\n  int depth = wo->depth();", "  int depth = wo->depth();"),
 ("bad", C, "    lock.relock(cond());\n", ""),
 ("bad", C, "    lock.release();\n    // execute", "    // execute"),
 ("bad", C, "    cond().signal();", "    "),
 ("bad", C, "nthr_[depth] >= max_busy_ )\n  {", "nthr_[depth] > 0 )\n  {"),
 ("bad", C, "    nidle_++;\n    wd.state = IDLE;", "    wd.state = IDLE;"),
 ("bad", C, "    if( wo && &(wo->clientref) == &client )", "    if( wo )"),
 ("bad", C, "  if( state == IDLE )\n    nidle_++;", "  if( state != IDLE )\n    nidle_++;"),
 ("bad", H, "nthr_.resize(wo->depth()+100,0);", ";"),
 ("bad", H, "if( wo->depth() >= int(nthr_.size()) )", "if( wo->depth() > int(nthr_.size()) )"),
 ("bad", H, "std::deque<WorkerData> workers_;", "std::vector<WorkerData> workers_;"),
 ("bad", N, "          wo->execute(*mt.cur_brigade_);\n          mt.cur_brigade_->finishWithWorkOrder(wo);", "          wo->execute(*mt.cur_brigade_);"),
 ("bad", N, "    lock2.release();\n    // ok, we have", "    // ok, we have"),
 ("ok", C, "      wo_queue_.pop_front();\n      ++nthr_[depth];", "      ++nthr_[depth];\n      wo_queue_.pop_front();"),
 ("ok", C, "      ++nthr_[depth];\n", "      nthr_[depth] += 1;\n"),
 ("ok", C, "  // if there are no idle threads, start a new worker\n  if( !nidle_ )", "  if( nidle_ == 0 )"),
 ("ok", C, "    if( wo_queue_.empty() )\n    {", "    if( wo_queue_.size() == 0 )\n    {"),
 ("ok", C, "          wd.state = IDLE;\n          ++nidle_;", "          ++nidle_;\n          wd.state = IDLE;"),
]
