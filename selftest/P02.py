N="MEQ/src/Node.cc"; H="MEQ/src/Node.h"; R="MEQ/src/RequestId.cc"
M=[
("bad",N,"if( rqid.empty() || cache_.rqid.empty() )","if( rqid.empty() )"),
("bad",N,"if( rqid.empty() || cache_.rqid.empty() )","if( cache_.rqid.empty() )"),
("bad",N,"int diffmask = RqId::diffMask(rqid,cache_.rqid)&cache_.rescode;","int diffmask = RqId::diffMask(rqid,cache_.rqid)&cache_.rescode&~8;"),
("bad",N,"             req.evalMode() == 0 &&\n",""),
("bad",N,"             RequestType::evalMode(cache_.rqid) > 0 )","             RequestType::evalMode(cache_.rqid) >= 0 )"),
("bad",N,"      Result &res = ref();\n      for( int i=0; i<res.numVellSets(); i++ )\n        if( res.vellSet(i).numPertSets() )\n          res.vellSetWr(i).setNumPertSets(0);\n",""),
("bad",N,"  if( has_state_dep_ )\n    cache_.rescode |= symdeps().getMask(FState);\n  // Check","  // Check"),
("bad",N,"    retcode = cache_.rescode;\n    // if","    // if"),
("bad",N,"  // no match -- clear cache and return\n  clearCache(false);","  // no match -- clear cache and return"),
("bad",N,"req.requestType() == RequestType::PARM_UPDATE &&","req.requestType() != RequestType::PARM_UPDATE &&"),
("bad",N,"    cache_.ignore_parent_releases_ = true;\n",""),
("bad",N,"do_cache  = npar > 1;","do_cache  = npar > 0;"),
("bad",N,"longcache = !(diffmask&retcode);","longcache = true;"),
("bad",N,"do_cache = longcache || npar > 1;","do_cache = longcache;"),
("bad",N,"do_cache = longcache = true;           // fails","do_cache = true; longcache = false; // fails"),
("bad",N,"actual_cache_policy_ <= CACHE_NEVER ","actual_cache_policy_ < CACHE_NEVER "),
("bad",N,"holdChildCaches(!longcache,diffmask);","holdChildCaches(!do_cache,diffmask);"),
("bad",N,"cache_.set(ref,req,retcode&~RES_UPDATED);\n    cdebug","cache_.set(ref,req,retcode);\n    cdebug"),
("bad",N,"    control_status_ |= CS_CACHED;\n    // sync","    // sync"),
("bad",N,"  pcparents_->nhint = pcparents_->nhold = 0;\n  *pc","  pcparents_->nhint = 0;\n  *pc"),
("bad",N,"  cache_.ignore_parent_releases_ = false;\n",""),
("bad",H,"          rqid    = req.id();\n",""),
("bad",H,"          rescode = code;\n          recref_.detach();","          rescode = code;"),
("bad",H,"          is_valid = false;\n          recref_.detach();","          recref_.detach();"),
("bad",N,"  if( hold )\n    pcparents_->nhold++;","  pcparents_->nhold++;"),
("bad",N,"      cache_.rescode&domain_depend_mask_ && // for","      // for"),
("bad",N,"      pcparents_->nhint >= (","      pcparents_->nhint > 0 || pcparents_->nhint >= ("),
("bad",N,"      ( actual_cache_policy_ <= CACHE_MINIMAL || !pcparents_->nhold ) )","      ( actual_cache_policy_ <= CACHE_MINIMAL || pcparents_->nhold ) )"),
("bad",N,"  if( !cache_.ignore_parent_releases_ &&\n","  if(\n"),
("bad",N,"bool hold_child_cache = hold && !(stepchildren().childRetcode(i)&diffmask);","bool hold_child_cache = hold && (stepchildren().childRetcode(i)&diffmask);"),
("bad",N,"  children().finishPoll();\n  stepchildren().finishPoll();\n\n","  children().finishPoll();\n\n"),
("bad",N,"    for( int i=0; i<stepchildren().numChildren(); i++ )\n      stepchildren().getChild(i).clearCache(true,marker);","",),
("bad",N,"stepchildren().getChild(i).clearCache(true,marker);","stepchildren().getChild(i).clearCache(false,marker);"),
("bad",N,"  Thread::Mutex::Lock lock(execCond());\n  if( marker && marker","  if( marker && marker"),
("bad",N,"  has_state_dep_ = true;\n  // notify","  // notify"),
("bad",N,"  for( int i=0; i<numParents(); i++ )\n    getParent(i).propagateStateDependency();",""),
("bad",R,"        m1 < (1<<RQIDM_NBITS) && (iter1 != id1.end() || iter2 != id2.end()); \n        m1<<=1 )\n  {\n    // once we run out of indices in either ID, assume 0\n    AtomicID x1 = iter1 != id1.end() ? *(iter1++) : AtomicID(0);\n    AtomicID x2 = iter2 != id2.end() ? *(iter2++) : AtomicID(0);\n    if( x1 != x2 )\n      mask","        m1 < (1<<RQIDM_NBITS) && (iter1 != id1.end() && iter2 != id2.end()); \n        m1<<=1 )\n  {\n    // once we run out of indices in either ID, assume 0\n    AtomicID x1 = iter1 != id1.end() ? *(iter1++) : AtomicID(0);\n    AtomicID x2 = iter2 != id2.end() ? *(iter2++) : AtomicID(0);\n    if( x1 != x2 )\n      mask"),
("ok",N,"  if( rqid.empty() || cache_.rqid.empty() )\n    match = false;\n","  const bool noid = rqid.empty() || cache_.rqid.empty();\n  if( noid )\n    match = false;\n"),
("ok",N,"    int diffmask = RqId::diffMask(rqid,cache_.rqid)&cache_.rescode;","    const int dm = RqId::diffMask(rqid,cache_.rqid);\n    int diffmask = dm & cache_.rescode;"),
("ok",N,"RequestType::evalMode(cache_.rqid) > 0 )","0 < RequestType::evalMode(cache_.rqid) )"),
("ok",N,"  if( match )\n  {\n    cdebug(4)<<\"cache hit\"<<endl;","  if( !match )\n  {\n    pcs_total_->miss++;\n    if( new_request_ )\n      pcs_new_->miss++;\n    clearCache(false);\n    return false;\n  }\n  else\n  {\n    cdebug(4)<<\"cache hit\"<<endl;"),
("ok",N,"    longcache = !(diffmask&retcode);\n    do_cache = longcache || npar > 1;","    if( diffmask&retcode )\n    {\n      longcache = false;\n      do_cache = npar >= 2;\n    }\n    else\n      do_cache = longcache = true;"),
("ok",N,"  if( hold )\n    pcparents_->nhold++;","  if( hold )\n    pcparents_->nhold += 1;"),
("ok",N,"      bool hold_child_cache = hold && !(stepchildren().childRetcode(i)&diffmask);\n      stepchildren().getChild(i).holdCache(hold_child_cache);","      if( hold && !(stepchildren().childRetcode(i)&diffmask) )\n        stepchildren().getChild(i).holdCache(true);\n      else\n        stepchildren().getChild(i).holdCache(false);"),
("ok",N,"  pcparents_->nhint = pcparents_->nhold = 0;\n  *pc","  pcparents_->nhold = 0;\n  pcparents_->nhint = 0;\n  *pc"),
("ok",N,"    if( !diffmask )\n    {\n      ref = cache_.result;\n      match = true;\n    }\n","    if( diffmask == 0 )\n    {\n      match = true;\n      ref = cache_.result;\n    }\n"),
("ok",N,"  if( !cache_.ignore_parent_releases_ &&\n      cache_.rescode&domain_depend_mask_ && // for now, always hold cache  if no dependency on domain\n      actual_cache_policy_ < CACHE_ALWAYS &&","  if( cache_.ignore_parent_releases_ )\n    return;\n  const int need = cache_.rescode&domain_depend_mask_;\n  if( need && actual_cache_policy_ < CACHE_ALWAYS &&"),
("ok",N,"    for( int i=0; i<stepchildren().numChildren(); i++ )\n      stepchildren().getChild(i).clearCache(true,marker);","    const int nst = stepchildren().numChildren();\n    int k = 0;\n    while( k < nst )\n    {\n      stepchildren().getChild(k).clearCache(true,marker);\n      k++;\n    }"),
]
