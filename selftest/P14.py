R, V, N, L, C = "DMI/src/Record.cc", "DMI/src/Vec.cc", "DMI/src/NumArray.cc", "DMI/src/List.cc", "DMI/src/Container.cc"
M = [
 ("bad", R, 'FailWhen( nf > fields.size(),"record field number out of range");', 'FailWhen( nf > fields.size()+1,"record field number out of range");'),
 ("bad", R, '    if( nf == fields.size() )\n      return 0;\n    FailWhen( nf > fields.size(),"record field number out of range");\n', ''),
 ("bad", R, '  if( iter == fields.end() )\n    return 0;\n  FailWhen(writing', '  FailWhen(writing'),
 ("bad", R, '  FailWhen(writing && iter->second.isProtected(),"can\'t write to protected field "+id.toString(\'.\'));\n', ''),
 ("bad", R, '  if( writing )\n    ref.dewr();  // causes', '  if( writing && !nonconst )\n    ref.dewr();  // causes'),
 ("bad", R, '    FailWhen(field.isProtected() && flags&HONOR_PROTECT,"can\'t replace', '    FailWhen(field.isProtected() && !(flags&DMI::REPLACE),"can\'t replace'),
 ("bad", R, '    FailWhen(!(flags&DMI::REPLACE), "field "+id.toString(\'.\')+" already exists" );\n', ''),
 ("bad", R, '    FailWhen(pf->isProtected() && flags&HONOR_PROTECT,"can\'t removed', '    FailWhen(pf->isProtected() && !ignore_fail,"can\'t removed'),
 ("bad", R, '!res.second && overwrite && fld.isProtected()', '!res.second && !overwrite && fld.isProtected()'),
 ("bad", R, 'if( res.second || overwrite )\n        fld = oiter->second;', 'fld = oiter->second;'),
 ("bad", R, '    FailWhen(iter->second.isProtected(),"can\'t remove protected field "+id.toString(\'.\'));\n', ''),
 ("bad", R, '  FailWhen( fields.find(id) != fields.end(),"field "+id.toString(\'.\')+" already exists" );\n', ''),
 ("bad", R, '  FailWhen(!pf,"field "+id.toString(\'.\')+" not found");\n', ''),
 ("bad", R, 'void DMI::Record::protectField   (const HIID &id,bool protect)\n{\n  Thread::Mutex::Lock _nclock(mutex());', 'void DMI::Record::protectField   (const HIID &id,bool protect)\n{'),
 ("bad", R, '    Thread::Mutex::Lock _nclock(mutex());\n#ifdef USE_THREADS', '#ifdef USE_THREADS'),
 ("bad", V, 'FailWhen(n>mysize(),"index "', 'FailWhen(n>mysize()+1,"index "'),
 ("bad", V, '    FailWhen(n>mysize(),"index "+id.toString()+"is out of range" );\n', ''),
 ("bad", V, '    FailWhen(n<0,"illegal DMI::Vec index: "+id.toString());\n', ''),
 ("bad", V, '  if( n == mysize() ) // can insert', '  if( n == mysize()+1 ) // can insert'),
 ("bad", V, '  if( flags&(DMI::WRITE|DMI::ASSIGN) )\n  {\n    Assert1(nonconst);\n', '  if( flags&DMI::ASSIGN )\n  {\n    Assert1(nonconst);\n'),
 ("bad", V, '    Assert1(nonconst);\n    const_cast<Vec*>(this)->makeWritable();', '    const_cast<Vec*>(this)->makeWritable();'),
 ("bad", V, '    FailWhen(info.size>1,"DMI::Vec of "', '    FailWhen(info.size>2,"DMI::Vec of "'),
 ("bad", V, '      elem.ref.dewr();\n      elem.bset.clear();', '      elem.bset.clear();'),
 ("bad", V, '  checkIndex(n);\n  if( !dynamic_type )\n    return ObjRef();', '  if( !dynamic_type )\n    return ObjRef();'),
 ("bad", V, '  checkIndex(n);\n  if( dynamic_type ) \n', '  if( dynamic_type ) \n'),
 ("bad", V, '  makeWritable();\n  dprintf(2)("putting', '  dprintf(2)("putting'),
 ("bad", N, 'FailWhen(which[i] >= itsShape[i],"array', 'FailWhen(which[i] > itsShape[i],"array'),
 ("bad", N, '      for (int i=0; i<nid; i++) \n      {\n        FailWhen(which', '      for (int i=1; i<nid; i++) \n      {\n        FailWhen(which'),
 ("bad", N, 'AssertMsg (nraxes < ndim, "HIID', 'AssertMsg (nraxes <= ndim, "HIID'),
 ("bad", N, 'AssertMsg (st[nraxes] < itsShape[nraxes]', 'AssertMsg (st[nraxes] <= itsShape[nraxes]'),
 ("bad", N, 'AssertMsg (end[nraxes] <= itsShape[nraxes]', 'AssertMsg (end[nraxes] <= itsShape[nraxes]+1'),
 ("bad", N, 'AssertMsg (end[nraxes] > st[nraxes]', 'AssertMsg (end[nraxes] > 0'),
 ("bad", N, 'AssertMsg (incr[nraxes] > 0', 'AssertMsg (incr[nraxes] >= 0'),
 ("bad", N, '  AssertMsg (ndim > 0, "HIID " << id.toString() << " refers to an empty array");\n', ''),
 ("bad", N, 'FailWhen( itsType!=array_tid,\n            "can\'t access "+itsType.toString()+" as "+array_tid.toString() );\n  return itsArray;', 'return itsArray;'),
 ("bad", L, '    FailWhen(n || iter == items.end(),"index out of range"); ', '    FailWhen(n,"index out of range"); '),
 ("bad", L, '    FailWhen(n || (!inserting && iter == items.end()),"index', '    FailWhen(n || (inserting && iter == items.end()),"index'),
 ("bad", L, '  ItemList::iterator iter = applyIndex(n,!replace);', '  ItemList::iterator iter = applyIndex(n,true);'),
 ("bad", L, '    ItemList::const_reverse_iterator riter = items.rbegin();\n', '    ItemList::const_reverse_iterator riter = items.rbegin();\n    n++;\n'),
 ("bad", L, '  Assert1(nonconst || !(flags&DMI::WRITE));\n', ''),
 ("bad", L, '  if( flags&WRITE )\n    ref.dewr();', '  if( flags&ASSIGN )\n    ref.dewr();'),
 ("bad", C, '  if( writing && !nc_writable )', '  if( writing && !nc_writable && target.ptr )'),
 ("bad", C, 'target,nc_writable,flags) )', 'target,true,flags) )'),
 ("bad", C, '    return writing ? ref.dewr_p() : ref.deref_p();', '    return ref.deref_p();'),
 ("bad", C, '  if( target.tid != TpDMIObjRef || !target_nestable )', '  if( target.tid != TpDMIObjRef && !target_nestable )'),
 ("bad", C, '      nc_writable = false;\n      ncref0 = &ref;', '      ncref0 = &ref;'),
 ("bad", C, '  resolveToWritableContainer();\n  nc->remove(*pid);\n  target.ptr = 0;\n  return 0; ', '  nc->remove(*pid);\n  target.ptr = 0;\n  return 0; '),
 ("bad", C, '  resolveToWritableContainer();\n  ObjRef *ref0', '  ObjRef *ref0'),
 ("bad", C, '      if( target.size > 1 && !pointer )\n        ThrowExc(ConvError,ConvErrorMessage("array of "', '      if( target.size > 2 && !pointer )\n        ThrowExc(ConvError,ConvErrorMessage("array of "'),
 ("bad", C, '    bool match = tid == TpDMIObjRef || tid == target.obj_tid;', '    bool match = tid == TpDMIObjRef || tid != target.obj_tid;'),
 ("bad", R, 'void DMI::Record::clear ()\n{\n  Thread::Mutex::Lock _nclock(mutex());', 'void DMI::Record::clear ()\n{'),
 # behaviour kept
 ("ok", R, '  if( iter == fields.end() )\n    return 0;\n  FailWhen(writing', '  if( !(iter != fields.end()) )\n    return 0;\n  FailWhen(writing'),
 ("ok", R, '    if( nf == fields.size() )\n      return 0;\n    FailWhen( nf > fields.size(),"record field number out of range");\n', '    const uint count = fields.size();\n    FailWhen( nf > count,"record field number out of range");\n    if( nf == count )\n      return 0;\n'),
 ("ok", R, '    for( uint i=0; i<nf && iter != fields.end(); i++,iter++ );', '    uint i = 0;\n    while( i<nf && iter != fields.end() )\n    {\n      ++iter;\n      ++i;\n    }'),
 ("ok", R, '  if( !res.second ) // existing field\n  {\n', '  const bool existing = !res.second;\n  if( existing )\n  {\n'),
 ("ok", R, '  Field * pf =  findField(id);\n  if( pf )\n  {\n', '  Field * const pf = findField(id);\n  const bool found = pf != 0;\n  if( found )\n  {\n'),
 ("ok", V, '    FailWhen(n<0,"illegal DMI::Vec index: "+id.toString());\n    FailWhen(n>mysize(),"index "+id.toString()+"is out of range" );\n', '    const int total = mysize();\n    FailWhen(n<0 || n>total,"index "+id.toString()+"is out of range" );\n'),
 ("ok", V, '  if( n == mysize() ) // can insert at end, return 0 to indicate\n    return 0;', '  if( n >= mysize() )\n    return 0;'),
 ("ok", N, '        FailWhen(which[i] >= itsShape[i],"array position out of range");', '        const int extent = itsShape[i];\n        FailWhen(!(which[i] < extent),"array position out of range");'),
 ("ok", N, '  if( flags&DMI::WRITE )\n  {\n    Assert1(nonconst);\n    const_cast<NumArray*>', '  const bool wr = flags&DMI::WRITE;\n  if( wr )\n  {\n    Assert1(nonconst);\n    const_cast<NumArray*>'),
 ("ok", L, '    while( n>0 && iter != items.end() )\n      --n,++iter;\n    FailWhen(n || iter', '    for( ; n>0 && iter != items.end(); --n )\n      ++iter;\n    FailWhen(n || iter'),
 ("ok", L, '  bool replace = flags&DMI::REPLACE;\n  ItemList::iterator iter = applyIndex(n,!replace);', '  const bool replace = (flags&DMI::REPLACE) != 0;\n  const bool inserting = !replace;\n  ItemList::iterator iter = applyIndex(n,inserting);'),
 ("ok", C, '  if( writing && !nc_writable )\n  {\n    target.ptr = 0;\n    resolveToWritableContainer(); // throws ReadOnly if not possible\n  }', '  const bool must_cow = writing && !nc_writable;\n  if( must_cow )\n  {\n    target.ptr = 0;\n    resolveToWritableContainer();\n  }'),
 ("ok", C, '    bool match = tid == TpDMIObjRef || tid == target.obj_tid;\n    if( match )', '    if( tid == TpDMIObjRef || target.obj_tid == tid )'),
 ("ok", C, '    return writing ? ref.dewr_p() : ref.deref_p();', '    if( writing )\n      return ref.dewr_p();\n    return ref.deref_p();'),
]
M2 = [
 # 0 helper for the id check
 ("ok", R, '// attaches object to field', '// field ids may not be empty\nstatic void checkFieldId (const HIID &id)\n{\n  FailWhen( !id.size(),"null field id" );\n}\n\n// attaches object to field', [(R,'  FailWhen( !id.size(),"null field id" );\n  // find/insert field','  checkFieldId(id);\n  // find/insert field'),(R,'  FailWhen( !id.size(),"null field id" );\n  // find and remove','  checkFieldId(id);\n  // find and remove')]),
 # 1 merge written differently
 ("ok", R, '      if( res.second || overwrite )\n        fld = oiter->second;', '      const bool keep = !res.second && !overwrite;\n      if( keep )\n        continue;\n      fld = oiter->second;'),
 # 2 while loop
 ("ok", R, '    for( CFMI oiter = other.fields.begin(); oiter != other.fields.end(); oiter++ )\n    {', '    CFMI oend = other.fields.end();\n    for( CFMI oiter = other.fields.begin(); oiter != oend; ++oiter )\n    {'),
 # 3 early return in removeField
 ("ok", R, '  if( pf )\n  {\n    FailWhen(pf->isProtected() && flags&HONOR_PROTECT,"can\'t removed protected field "+id.toString(\'.\'));\n    ObjRef ref;\n    pf->xfer(ref);\n    fields.erase(id);\n    dprintf(2)("  removing %s\\n",ref->debug(1));\n    return ref;\n  }\n  FailWhen(!ignore_fail,"field "+id.toString(\'.\')+" not found");\n  return ObjRef();', '  if( !pf )\n  {\n    FailWhen(!ignore_fail,"field "+id.toString(\'.\')+" not found");\n    return ObjRef();\n  }\n  const bool honor = flags&HONOR_PROTECT;\n  if( honor && pf->isProtected() )\n    Throw("can\'t removed protected field "+id.toString(\'.\'));\n  ObjRef ref;\n  pf->xfer(ref);\n  fields.erase(id);\n  return ref;'),
 # 4 Record::get restructured
 ("ok", R, '  FailWhen(writing && iter->second.isProtected(),"can\'t write to protected field "+id.toString(\'.\'));\n  ObjRef &ref = const_cast<ObjRef&>(iter->second.ref());\n  if( writing )\n    ref.dewr();  // causes copy-on-write as needed', '  const Field &fld = iter->second;\n  ObjRef &ref = const_cast<ObjRef&>(fld.ref());\n  if( writing )\n  {\n    FailWhen(fld.isProtected(),"can\'t write to protected field "+id.toString(\'.\'));\n    ref.dewr();  // causes copy-on-write as needed\n  }'),
 # 5 Vec::get
 ("ok", V, '    n = id.front().index();\n    FailWhen(n<0,"illegal DMI::Vec index: "+id.toString());', '    const int index = id.front().index();\n    FailWhen(index<0,"illegal DMI::Vec index: "+id.toString());\n    n = index;'),
 # 6 switch to if/else
 ("ok", V, '    if( elem.state == UNINITIALIZED )\n    {', '    if( elem.state == UNINITIALIZED || elem.state == INBLOCK )\n    {', [(V,'    else if( elem.state == INBLOCK )\n      resolveObject(n);\n','')]),
 # 7 Vec::put: prepareForPut first
 ("ok", V, '  makeWritable();\n  dprintf(2)("putting @%d: %s\\n",n,ref.debug(2));\n  ObjRef &ref2 = prepareForPut(ref->objectType(),n);\n', '  const TypeId tid = ref->objectType();\n  makeWritable();\n  ObjRef &ref2 = prepareForPut(tid,n);\n'),
 # 8 NumArray::get merges loops
 ("ok", N, '      for (int i=0; i<nid; i++) \n      {\n        FailWhen(which[i] >= itsShape[i],"array position out of range");\n      }\n      // compute the element offset\n      int offset = 0, stride = 1;\n      for( int i = ndim-1; i>=0; i-- )\n      {\n', '      // compute the element offset\n      int offset = 0, stride = 1;\n      for( int i = ndim-1; i>=0; i-- )\n      {\n        FailWhen(which[i] >= itsShape[i],"array position out of range");\n'),
 # 9 NumArray loop style
 ("ok", N, '      for( int i=0; i<nid; i++ ) \n      {\n        which[i] = id[i];\n        if( which[i] < 0 ) // all elements for this axis?\n        {\n\t        single = false;\n\t        break;\n        }\n      }', '      for( int i=0; i<nid && single; i++ ) \n      {\n        which[i] = id[i];\n        if( which[i] < 0 ) // all elements for this axis?\n          single = false;\n      }'),
 # 10 list helper
 ("ok", L, '  int n = index;\n  // insert allowed @end of list, return 0 if @end\n  if( n == numItems() )\n    return 0;', '  const int n = id.front();\n  const bool atend = n == int(items.size());\n  if( atend )\n    return 0;'),
 # 11 applyIndex
 ("ok", L, '    FailWhen(n || (!inserting && iter == items.end()),"index out of range"); \n    return iter;', '    FailWhen(n,"index out of range"); \n    if( !inserting )\n      FailWhen(iter == items.end(),"index out of range");\n    return iter;'),
 # 12 hook
 ("ok", C, '  if( target.tid != TpDMIObjRef || !target_nestable )\n  {', '  const bool is_container = target.tid == TpDMIObjRef && target_nestable;\n  if( !is_container )\n  {'),
 # 13
 ("ok", C, '    // (1a) new container is also non-const; becomes base of chain (case [a] or [d])\n    if( ref.isDirectlyWritable() )', '    const bool direct = ref.isDirectlyWritable();\n    if( direct )'),
 # 14
 ("ok", C, '  if( isRef() )\n    ret.xfer(const_cast<ObjRef*>(asRef(false))->unlock());\n', '  if( isRef() )\n  {\n    ObjRef *pref = const_cast<ObjRef*>(asRef(false));\n    ret.xfer(pref->unlock());\n  }\n'),
 # 15
 ("ok", C, '    // success if types match\n    bool match = tid == TpDMIObjRef || tid == target.obj_tid;\n    if( match )\n    {', '    if( tid != TpDMIObjRef && tid != target.obj_tid )\n    {\n      // else try to treat the target as a container \n      if( !attempt && !nextContainer(HIID()) )\n        ThrowConvError1(target.obj_tid,tid,(pointer?"*":""));\n      continue;\n    }\n    {'),
]
M += [tuple(m[:4]) + tuple(m[4] if len(m) > 4 else ()) for m in M2]
M += [
 ("bad", "DMI/src/Vec.h", "n < 0 || n >= mysize_", "n < 0 || n > mysize_"),
 ("bad", "DMI/src/Vec.h", "n < 0 || n >= mysize_", "n >= mysize_"),
 ("bad", V, "if( n == mysize() )\n      resize(n+1);", "if( n >= mysize() )\n      resize(n+1);"),
 ("bad", V, '    FailWhen( tid != mytype, "type mismatch in put("+tid.toString()+")" );\n', ''),
 ("bad", V, '    FailWhen(n != mysize(),Debug::ssprintf("can\'t insert at [%d]",n) );', '    FailWhen(n < mysize(),Debug::ssprintf("can\'t insert at [%d]",n) );'),
 ("bad", V, '    FailWhen( n != mysize()-1,"can only remove from end of field" );', '    FailWhen( n >= mysize(),"can only remove from end of field" );'),
 ("bad", V, '    FailWhen(n,Debug::ssprintf("can\'t insert at [%d]",n));\n', ''),
 ("bad", V, 'type()!=real_tid && !TypeInfo::isConvertible(real_tid,type())', 'type()!=real_tid && !TypeInfo::isNumeric(type())'),
 ("bad", V, '  Thread::Mutex::Lock _nclock(mutex());\n  FailWhen( newsize<=0', '  FailWhen( newsize<=0'),
 ("bad", L, 'void DMI::List::put (int n,ObjRef &ref,int flags)\n{\n  Thread::Mutex::Lock _nclock(mutex());', 'void DMI::List::put (int n,ObjRef &ref,int flags)\n{'),
 ("bad", L, '  Thread::Mutex::Lock _nclock2(other.mutex());\n', ''),
 ("bad", L, 'DMI::ObjRef DMI::List::get (int n) const\n{\n  Thread::Mutex::Lock _nclock(mutex());', 'DMI::ObjRef DMI::List::get (int n) const\n{'),
 ("bad", L, '  dprintf(2)("remove(%d)\\n",n);\n  ItemList::iterator iter = applyIndex(n,false);', '  dprintf(2)("remove(%d)\\n",n);\n  ItemList::iterator iter = applyIndex(n,true);'),
 ("bad", L, '    if( inserting ) // do one', '    if( !inserting ) // do one'),
 ("bad", L, '    while( n<0 && riter != items.rend() )\n      ++n,++riter;\n    FailWhen(n,"index out of range"); \n    return riter.base();\n  }\n  else \n  {\n    ItemList::iterator', '    while( n<0 && riter != items.rend() )\n      ++n,++riter;\n    return riter.base();\n  }\n  else \n  {\n    ItemList::iterator'),
 ("bad", L, '  if( n == numItems() )\n    return 0;', '  if( n >= numItems() )\n    return 0;'),
 ("bad", N, 'int DMI::NumArray::get (const HIID& id, ContentInfo &info,bool nonconst,int flags) const\n{\n  Thread::Mutex::Lock _nclock(mutex());', 'int DMI::NumArray::get (const HIID& id, ContentInfo &info,bool nonconst,int flags) const\n{'),
 ("bad", N, '    const_cast<NumArray*>(this)->makeWritable();\n  }\n  TypeId hint', '  }\n  TypeId hint'),
 ("bad", N, '  if( nid == 0 )  // else a null HIID \n  {\n    if( hint == itsScaType )', '  if( nid == 0 )  // else a null HIID \n  {\n    if( hint != itsType )'),
 ("bad", N, '        if( which[i] < 0 ) // all elements for this axis?\n        {\n\t        single = false;\n\t        break;\n        }', '        if( which[i] < -1 ) // all elements for this axis?\n        {\n\t        single = false;\n\t        break;\n        }'),
 ("bad", R, '  protected_ = flags&Record::PROTECT;', '  if( flags&Record::PROTECT )\n    protected_ = false;'),
 ("bad", R, '  protected_ = other.protected_;', '  protected_ = false;'),
 ("bad", R, '    Thread::Mutex::Lock lock2(other.mutex());\n', ''),
 ("bad", R, '  Thread::Mutex::Lock _nclock1(other.mutex());\n', ''),
 ("bad", R, '  FailWhen( !id.size(),"null field id" );\n  Thread::Mutex::Lock _nclock(mutex());\n  CFMI', '  FailWhen( !id.size(),"null field id" );\n  CFMI'),
 ("bad", R, '  FailWhen( !id.size(),"null field id" );\n  Thread::Mutex::Lock _nclock(mutex());\n  CFMI', '  Thread::Mutex::Lock _nclock(mutex());\n  CFMI'),
 ("bad", R, '    FailWhen(!ignore_fail,"field "+id.toString(\'.\')+" not found" );\n    return ObjRef();', '    FailWhen(!ignore_fail,"field "+id.toString(\'.\')+" not found" );'),
 ("bad", C, '  nc_writable = nonconst;\n', '  nc_writable = true;\n'),
 ("bad", C, '  ncptr0 = nc_writable ? nc : 0; ', '  ncptr0 = nc; '),
 ("bad", C, '      resolveToWritableContainer();\n      target.tid = tid;', '      target.tid = tid;'),
 ("bad", C, '          ( !target.obj_tid || target.obj_tid == real_tid || replacing ) )', '          ( !target.obj_tid || target.obj_tid == real_tid || target.writable ) )'),
 ("bad", C, '( !nctype || real_tid == nctype ) &&', '( !nctype || real_tid || nctype ) &&'),
 ("bad", C, 'tid == target.obj_tid || TypeInfo::isConvertible(tid,target.tid) )\n      return targ;', 'tid == target.obj_tid || TypeInfo::isNumeric(tid) )\n      return targ;'),
 ("bad", C, '    else if( replacing )\n    {\n      removeTarget();', '    else\n    {\n      removeTarget();'),
 ("bad", C, '  if( tid != info.tid )\n  {\n    if( !TypeInfo::convert(data', '  if( tid != info.tid && TypeInfo::isNumeric(tid) )\n  {\n    if( !TypeInfo::convert(data'),
 ("bad", C, '    if( !TypeInfo::convert(data,tid,targ,info.tid) )\n      ThrowConvError(tid,info.tid);', '    TypeInfo::convert(data,tid,targ,info.tid);'),
 ("bad", C, '    if( target.tid != TpDMIObjRef )\n    {\n      if( info.tid )', '    if( target.tid != TpDMIObjRef && !target_nestable )\n    {\n      if( info.tid )'),
 ("bad", C, '    if( !static_cast<const ObjRef *>(targ)->valid() )\n    {\n      if( must_exist ) \n        ThrowUninitialized;\n      info.size = 0;\n      return 0;\n    }\n', ''),
 ("bad", C, '    if( ref.isDirectlyWritable() )', '    if( ref.isWritable() )'),
 ("bad", C, '    DMI::Container *nc1 = dynamic_cast<DMI::Container *>(ref.dewr_p());', '    DMI::Container *nc1 = dynamic_cast<DMI::Container *>(const_cast<DMI::BObj*>(ref.deref_p()));'),
 ("bad", C, '    ncptr0 = ncref0->dewr_p();', '    ncptr0 = const_cast<DMI::Container*>(ncref0->deref_p());'),
 ("bad", C, '  else if( !ncptr0 ) // (d): no chain, fail completely\n  {\n    DbgAssert(chain.empty());\n    ThrowReadOnly;\n  }', '  else if( !ncptr0 ) // (d): no chain\n    ncptr0 = nc;'),
 ("bad", C, '  if( !ref.valid() )\n  {\n    if( nothrow ) return false;\n    else          \n      ThrowExc(NotContainer,"indexing into a "+\n                target.obj_tid.toString()+", but not a valid ref");\n  }\n', ''),
]
M += [
 ("bad", "DMI/src/Container.h", "initialize(ref.deref_p(),id1,refnonconst && ref.isDirectlyWritable());", "initialize(ref.deref_p(),id1,refnonconst);"),
 ("bad", "DMI/src/Container.h", "initialize(&parent,id1,false);", "initialize(&parent,id1,true);"),
 ("bad", "DMI/src/Container.h", "      { return Hook(*this,id,false); }", "      { return Hook(*this,id,true); }"),
 ("ok", C, '  nc_writable = nonconst;\n', '  const bool wr = nonconst;\n  nc_writable = wr;\n'),
 ("ok", C, '  ncptr0 = nc_writable ? nc : 0; ', '  ncptr0 = 0;\n  if( nonconst )\n    ncptr0 = nc; '),
 ("ok", C, '    ncptr0 = ncref0->dewr_p();', '    Container *pnc = ncref0->dewr_p();\n    ncptr0 = pnc;'),
 ("ok", R, '  protected_ = flags&Record::PROTECT;', '  const bool prot = flags&Record::PROTECT;\n  protected_ = prot;'),
 ("ok", R, '  protected_ = flags&Record::PROTECT;', '  if( flags&Record::PROTECT )\n    protected_ = true;\n  else\n    protected_ = false;'),
]
