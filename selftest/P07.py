V, K, G = "MeqServer/src/VisDataMux.cc", "MeqServer/src/Sink.cc", "MeqServer/src/Spigot.cc"
M = [
 ("bad", V, "if( did < 0 || did >= int(handlers_.size()) )", "if( did >= int(handlers_.size()) )"),
 ("bad", V, "if( did < 0 || did >= int(handlers_.size()) )", "if( did < 0 || did > int(handlers_.size()) )"),
 ("bad", V, "  if( maxdid > int(handlers_.size()) )\n    handlers_.resize(maxdid);", "  handlers_.resize(maxdid);"),
 ("bad", V, "    if( did >= int(child_indices_.size()) )\n      child_indices_.resize(did+100);\n", ""),
 ("bad", V, "      handlers_.resize(did+100);\n    if( did >= int(child", "      handlers_.resize(did);\n    if( did >= int(child"),
 ("bad", V, "have_tile_.assign(handlers_.size(),false);\n    // if we have", "have_tile_.assign(handlers_.size()-1,false);\n    // if we have"),
 ("bad", V, "i<child_indices_.size() && i<have_tile_.size()", "i<child_indices_.size()"),
 ("bad", V, "i0 < tile.nrow() && tile.time(i0) == 0", "tile.time(i0) == 0"),
 ("bad", V, "  if( seqnr != current_seqnr_ )\n  {\n    // previous", "  if( seqnr > current_seqnr_ )\n  {\n    // previous"),
 ("bad", V, "    if( current_seqnr_ >= 0 )\n    {\n      try { result_flag |= endSnippet(); }\n      CatchExceptions(\"ending tile \"+rqid_.toString('.'));\n    }\n    num_tiles_++;", "    if( current_seqnr_ > 0 )\n    {\n      try { result_flag |= endSnippet(); }\n      CatchExceptions(\"ending tile \"+rqid_.toString('.'));\n    }\n    num_tiles_++;"),
 ("bad", V, "    current_seqnr_ = seqnr;\n", ""),
 ("bad", V, "  have_tile_[did] = true;\n", ""),
 ("bad", V, "    result_flag |= startSnippet(*tileref); }", "    if( result_flag == 0 ) result_flag |= startSnippet(*tileref); }") if 0 else ("bad", V, "try { result_flag |= startSnippet(*tileref); }", "try { if( !current_req_.valid() ) result_flag |= startSnippet(*tileref); }"),
 ("bad", V, "    try { result_flag |= (*iter)->deliverTile(*current_req_,tileref,current_range_); }", "    if( errors.empty() ) try { result_flag |= (*iter)->deliverTile(*current_req_,tileref,current_range_); }"),
 ("bad", V, "        try { result_flag |= (*iter)->deliverFooter(footer); }", "        if( have_tile_[i] ) try { result_flag |= (*iter)->deliverFooter(footer); }"),
 ("bad", V, "  // throw errors if any\n  if( !errors.empty() )\n    throw errors;\n  return result_flag;\n}\n\n//##ModelId=3F950ACA0160", "  return result_flag;\n}\n\n//##ModelId=3F950ACA0160"),
 ("bad", V, "        res->addToExceptionList(errors);\n        errors.add(MakeNodeException(\"child '\"+children().getChild(ichild).name()+\"' returns a FAIL\"));", "        cdebug(1)<<\"fail\"<<endl;"),
 ("bad", V, "    RqId::incrSubId(next_rqid_,symdeps().getMask(FDomain));\n", ""),
 ("bad", V, "    rqid_ = next_rqid_;\n    RqId::incrSubId(next_rqid_,symdeps().getMask(FDomain));\n", "    RqId::incrSubId(next_rqid_,symdeps().getMask(FDomain));\n    rqid_ = next_rqid_;\n"),
 ("bad", V, "    have_tile_.assign(handlers_.size(),false);\n    // if we have", "    // if we have"),
 ("bad", V, "  for( int i=0; i<numChildren(); i++ )\n    children().disableChild(i);\n", ""),
 ("bad", V, "      if( ichild < 0 )  // break out if finished\n        break;", "      if( ichild < 0 || retcode&RES_FAIL )  // break out if finished\n        break;"),
 ("bad", V, "              cached_header_.detach();\n", ""),
 ("bad", V, "            if( cached_header_.valid() )\n            {", "            if( cached_header_.valid() && writing_data_ )\n            {") if 0 else ("bad", V, "          writing_data_ = true;\n          if( output_channel_.valid() )", "          if( output_channel_.valid() && !writing_data_ )"),
 ("bad", V, "    if( current_seqnr_ >= 0 )\n    {\n      try { result_flag |= endSnippet(); }\n      CatchExceptions(\"ending tile \"+rqid_.toString('.'));\n    }\n    cdebug(2)", "    cdebug(2)"),
 ("bad", V, "  // post footer to output\n  if( output_channel_.valid() )", "  // post footer to output\n  if( output_channel_.valid() && writing_data_ )"),
 ("bad", V, "  current_seqnr_ = -1;\n", ""),
 ("bad", V, "        FailWhen(stream_state!=VisData::DATA,\"data event \"+ev_inst.toString('.')+\" out of sequence\");\n", ""),
 ("bad", V, "        stream_state = VisData::FOOTER;\n", ""),
 ("bad", V, "        FailWhen(stream_state!=VisData::FOOTER,\"header out of sequence\");\n", ""),
 ("bad", V, "        try  { MeqPython::processVisTile(*tileref); }\n        catch( std::exception &exc ) { errors.add(exc); }\n        // deliver the tile\n        try { deliverTile(tileref); }", "        try  { MeqPython::processVisTile(*tileref); deliverTile(tileref); }"),
 ("bad", V, "    fail_list().addFail(exc);\n  }", "  }"),
 ("bad", V, "    // post end event\n    postEvent(FVisChannelClosed,endref);\n    // abort", "    // abort"),
 ("bad", V, "        fail_list().addFail(errors); // add to overall list\n", ""),
 ("bad", V, "    return RES_FAIL|getDependMask();", "    return getDependMask();"),
 ("bad", V, "    if( fail_list->isFail() )\n    {\n      input_channel_().abort();", "    if( stream_state != VisData::FOOTER )\n    {\n      input_channel_().abort();"),
 ("bad", K, "  FailWhen(req.id() != cur_rqid,\"expected rqid \"+cur_rqid.toString()+\", got \"+req.id().toString());\n", ""),
 ("bad", K, "  tileref.xfer(cur_tile);", "  tileref.copy(cur_tile);"),
 ("bad", K, "    else if( icorr >= ncorr )", "    else if( icorr > ncorr )"),
 ("bad", K, "  if( result.numFails() )\n    return RES_FAIL;\n", ""),
 ("bad", K, "    resref[AidTile] <<= ptile;\n    return RES_UPDATED;", "    return RES_UPDATED;"),
 ("bad", K, "int Sink::deliverFooter (const DMI::Record &)\n{\n  cur_tile.detach();", "int Sink::deliverFooter (const DMI::Record &)\n{"),
 ("bad", K, "  cur_rqid = req.id();\n", ""),
 ("bad", G, "         !RqId::maskedCompare(req.id(),res_queue_.begin()->rqid,getDependMask()) )\n    res_queue_.pop_front();", "         RqId::maskedCompare(req.id(),res_queue_.begin()->rqid,getDependMask()) )\n    res_queue_.pop_front();"),
 ("bad", G, "  while( !res_queue_.empty() &&", "  if( !res_queue_.empty() &&"),
 ("bad", G, "    res_queue_.back().rqid = req.id();\n", ""),
 ("bad", G, "            FailWhen(icorr >= nplanes,ssprintf(\"corr index %d out of range for this tile\",icorr));\n            vs.setReal(shape).getArray<double,2>() = cube(", "            vs.setReal(shape).getArray<double,2>() = cube("),
 ("ok", V, "  if( seqnr != current_seqnr_ )\n  {\n    // previous", "  const bool fresh = !( seqnr == current_seqnr_ );\n  if( fresh )\n  {\n    // previous"),
 ("ok", V, "  HandlerSet & hlist = handlers_[did];\n  HandlerSet::iterator iter = hlist.begin();\n  for( ; iter != hlist.end(); iter++ )\n  {\n    cdebug(4)", "  HandlerSet & hlist = handlers_[did];\n  HandlerSet::iterator iter = hlist.begin();\n  while( iter != hlist.end() )\n  {\n    HandlerSet::iterator cur = iter++; iter = cur; \n    cdebug(4)") if 0 else ("ok", V, "  HandlerSet::iterator iter = hlist.begin();\n  for( ; iter != hlist.end(); iter++ )\n  {\n    cdebug(4)", "  for( HandlerSet::iterator iter = hlist.begin(); iter != hlist.end(); ++iter )\n  {\n    cdebug(4)"),
 ("ok", V, "    handlers_.resize(maxdid);", "    handlers_.resize(std::max(maxdid,int(handlers_.size())));"),
 ("ok", V, "      if( ichild < 0 )  // break out if finished\n        break;", "      const bool all_done = ichild < 0;\n      if( all_done )\n        break;"),
 ("ok", G, "  if( res_queue_.empty() )\n  {\n    (resref", "  if( !res_queue_.size() )\n  {\n    (resref"),
 ("ok", K, "    if( icorr<0 )\n    {", "    if( icorr < 0 || false )\n    {"),
 ("ok", V, "      if( event_type == VisData::DATA )\n      {", "      const bool is_tile = event_type == VisData::DATA;\n      if( is_tile )\n      {"),
]
