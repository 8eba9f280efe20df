B = "DMI/src/CountedRefBase.cc"
H = "DMI/src/CountedRefBase.h"
C = "DMI/src/CountedRef.h"
M = [
 ("bad", B, "  target_ = targ;\n#ifdef COUNTEDREF_LINKED_LIST", "  target_ = targ;\n  if( flags&DMI::READONLY )\n  {\n    writable_ = false;\n    return *this;\n  }\n#ifdef COUNTEDREF_LINKED_LIST"),
 ("bad", B, "    target_ = other.target_;\n#ifdef COUNTEDREF_LINKED_LIST\n    // insert copy", "    other_target_lock.release();\n    target_ = other.target_;\n#ifdef COUNTEDREF_LINKED_LIST\n    // insert copy"),
 ("bad", B, "  if( !(--target_->ref_count_) && isAnonTarget() )", "  if( --target_->ref_count_ <= 1 && isAnonTarget() )"),
 ("bad", B, "  if( !(--target_->ref_count_) && isAnonTarget() )", "  if( !(target_->ref_count_--) && isAnonTarget() )"),
 ("bad", B, "  if( !(--target_->ref_count_) && isAnonTarget() )", "  if( !(--target_->ref_count_) )"),
 ("bad", B, "  target_->ref_count_--;\n  newtarget_->ref_count_ = 1;", "  newtarget_->ref_count_ = 1;"),
 ("bad", B, "  if( valid() )\n    detach();\n  // If target_ is", "  // If target_ is"),
 ("bad", B, "  if( !isAnonTarget() || !isOnlyRef() || !writable_ || depth>0 || flags&DMI::DEEP)", "  if( !isAnonTarget() || !isOnlyRef() || !writable_ || flags&DMI::DEEP)"),
 ("bad", B, "  if( !isAnonTarget() || !isOnlyRef() || !writable_ || depth>0 || flags&DMI::DEEP)", "  if( !isAnonTarget() || (!isOnlyRef() && !shared_) || !writable_ || depth>0 || flags&DMI::DEEP)"),
 ("bad", B, "    cloneTarget(flags&~mask_local_flags,depth-1);", "    cloneTarget(0,depth-1);"),
 ("bad", B, "    if( flags&DMI::DEEP || depth>0 )\n    {\n      // clear all properties (privatize() will set them up according to flags)\n      locked_ = false;\n      privatize", "    if( flags&DMI::DEEP )\n    {\n      // clear all properties (privatize() will set them up according to flags)\n      locked_ = false;\n      privatize"),
 ("bad", B, "      writable_ = other.writable_;\n      if( flags&DMI::SHARED )", "      writable_ = true;\n      if( flags&DMI::SHARED )"),
 ("bad", B, "  FailWhen( isLocked(),\"can't detach a locked_ ref\");\n  // delete", "  // delete"),
 ("bad", H, "{ return ( writable_ && isOnlyRef() ) || shared_; }", "{ return writable_ || shared_; }"),
 ("bad", H, "{ return ( writable_ && isOnlyRef() ) || shared_; }", "{ return isOnlyRef() || shared_; }"),
 ("bad", H, "targetReferenceCount() == 1;", "targetReferenceCount() <= 2;"),
 ("bad", H, "        if( !isDirectlyWritable() )\n        {", "        if( !isDirectlyWritable() && !isOnlyRef() )\n        {"),
 ("bad", "DMI/src/NumArray.cc", "    itsData.unlock().copy(other.itsData,flags,depth).lock();\n    if( !realtype )", "    itsData.unlock().copy(other.itsData).lock();\n    if( !realtype )"),
 ("bad", "DMI/src/NumArray.h", "      itsArrayData = itsData().cdata() + itsDataOffset;\n", ""),
 ("bad", "DMI/src/NumArray.h", "  { Thread::Mutex::Lock lock(mutex()); makeWritable(); return itsArrayData; }", "  { Thread::Mutex::Lock lock(mutex()); return itsArrayData; }"),
 ("bad", "DMI/src/Vec.cc", "    phead_ = static_cast<HeaderBlock*>(headref_().data());\n    phead_->size = newsize;", "    phead_->size = newsize;"),
 ("bad", "DMI/src/Vec.cc", "  if( flags&(DMI::WRITE|DMI::ASSIGN) )\n", "  if( flags&DMI::ASSIGN )\n"),
 ("bad", "DMI/src/Vec.cc", "  headref_.copy(other.headref_,flags,depth);", "  headref_.copy(other.headref_);"),
 ("bad", "MEQ/src/Polc.h", "{ return new Polc(*this,flags,depth); }", "{ return new Funklet(*this,flags,depth); }"),
 ("bad", "MEQ/src/Request.h", "{ return new Request(*this,flags,depth); }", "{ return new Request(*this,flags,0); }"),
 ("bad", "VisCube/src/VTile.cc", "  return new VTile(*this,flags,depth);", "  return new ColumnarTableTile(*this,flags,depth);"),
 ("bad", "VisCube/src/ColumnarTableTile.h", "        datablock.privatize(DMI::WRITE);\n        setupDataPointers();", "        datablock.privatize(DMI::WRITE);"),
 ("bad", "VisCube/src/ColumnarTableTile.cc", "  pdata = newptr;\n  datablock.unlock().xfer(newblock).lock();\n  initBlock", "  datablock.unlock().xfer(newblock).lock();\n  initBlock"),
 ("bad", "VisCube/src/ColumnarTableTile.h", "      virtual bool makeWritable ()", "      bool makeWritable ()"),
 ("bad", "OCTOPUSSY/src/Message.cc", "    payload_.copy(other.payload_,flags,depth);", "    payload_.copy(other.payload_);"),
 ("ok", B, "  if( !(--target_->ref_count_) && isAnonTarget() )\n  {\n      CountedRefTarget *tmp = target_;", "  const int left = --target_->ref_count_;\n  if( left == 0 && isAnonTarget() )\n  {\n      CountedRefTarget *tmp = target_;"),
 ("ok", B, "  target_->ref_count_--;\n  newtarget_->ref_count_ = 1;", "  newtarget_->ref_count_ = 1;\n  target_->ref_count_ -= 1;"),
 ("ok", B, "  if( !isAnonTarget() || !isOnlyRef() || !writable_ || depth>0 || flags&DMI::DEEP)\n", "  const bool deep = flags&DMI::DEEP || depth>0;\n  if( deep || !(isAnonTarget() && isOnlyRef() && writable_) )\n"),
 ("ok", H, "{ return ( writable_ && isOnlyRef() ) || shared_; }", "{ if( shared_ ) return true; if( !writable_ ) return false; return isOnlyRef(); }"),
 ("ok", H, "        return target_;\n      }\n\n      //##ModelId=3C0CDEE20162", "        CountedRefTarget *result = target_;\n        return result;\n      }\n\n      //##ModelId=3C0CDEE20162"),
 ("ok", "DMI/src/NumArray.h", "    if( itsWritableRef )\n      return;\n    if( itsData.privatize() )\n    {", "    if( itsWritableRef )\n      return;\n    const bool moved = itsData.privatize();\n    if( moved )\n    {"),
 ("ok", "MEQ/src/Polc.h", "{ return new Polc(*this,flags,depth); }", "{ Polc *copy = new Polc(*this,flags,depth); return copy; }"),
]
