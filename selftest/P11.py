R="DMI/src/Record.cc"; L="DMI/src/List.cc"; V="DMI/src/Vec.cc"; N="DMI/src/NumArray.cc"; M="OCTOPUSSY/src/Message.cc"; S="OCTOPUSSY/src/Subscriptions.cc"; T="VisCube/src/TableFormat.cc"; C="VisCube/src/ColumnarTableTile.cc"; P="DMI/src/Packer.h"; H="DMI/src/HIID.cc"
M_=[]
M=M
LIST=[
("bad",R,"    nref += nr1;","    if( nr1 > 1 ) nref += nr1;"),
("bad",R,"      nr1 = fieldinfo->blockcount = 0; // null field","      nr1 = 0;"),
("bad",R,"  hdr->num_fields = fields.size();\n",""),
("bad",R,"  BObj::fillHeader(hdr,nref);\n  dprintf(2)(\"toBlock: %d total","  BObj::fillHeader(hdr,1);\n  dprintf(2)(\"toBlock: %d total"),
("bad",L,"      hdr->item_bc[i] = 0;\n",""),
("bad",L,"nref += hdr->item_bc[i] = iter->deref().toBlock(set);","hdr->item_bc[i] = iter->deref().toBlock(set); nref++;"),
("bad",M,"    set.push(block_);\n    blockcount++;","    set.push(block_);"),
("bad",M,"    blockcount += payload_->toBlock(set);","    payload_->toBlock(set);"),
("bad",M,"  hdr.hops      = hops_;\n",""),
("bad",M,"  hdr.state     = state_;\n  hdr.flags     = flags_;","  hdr.state     = flags_;\n  hdr.flags     = state_;"),
("bad",M,"  buf += from_.pack(buf,hsize);    \n  buf += to_.pack(buf,hsize);","  buf += to_.pack(buf,hsize);    \n  buf += from_.pack(buf,hsize);"),
("bad",M,"  from_.unpack(buf,hdr.fromsize); buf += hdr.fromsize;","  from_.unpack(buf,hdr.fromsize); buf += hdr.tosize;"),
("bad",M,"  hdr.fromsize  = fromsize;\n  hdr.tosize    = tosize;","  hdr.fromsize  = tosize;\n  hdr.tosize    = fromsize;"),
("bad",M,"  id_.unpack(buf,hdr.idsize);     buf += hdr.idsize;","  id_.unpack(buf,hdr.idsize);"),
("bad",T,"    ptr += ColumnFormatPacker::pack(cols,ptr,totsize);\n    ptr += ColumnShapePacker::pack(shapes,ptr,totsize);","    ptr += ColumnShapePacker::pack(shapes,ptr,totsize);\n    ptr += ColumnFormatPacker::pack(cols,ptr,totsize);"),
("bad",T,"  ptr += hdr->cf_size;\n","  ptr += hdr->cs_size;\n"),
("bad",T,"    hdr->cs_size = cs_size;\n",""),
("bad",S,"    size_t sz1 = iter->mask.pack(data,nleft); data += sz1;\n    size_t sz2 = iter->scope.pack(data,nleft); data += sz2;","    size_t sz1 = iter->scope.pack(data,nleft); data += sz1;\n    size_t sz2 = iter->mask.pack(data,nleft); data += sz2;"),
("bad",S,"    hdrsize += sz1+sz2;","    hdrsize += sz1;"),
("bad",C,"  BObj::fillHeader(hdr,format_.valid()?2:1);","  BObj::fillHeader(hdr,1);"),
("bad",C,"  hdr->nrow = nrow();","  hdr->nrow = ncol();"),
("bad",C,"    count += format_->toBlock(set);","    format_->toBlock(set);"),
("bad",V,"              // set.push(emptyObjectBlock());\n              nb = 0;","              nb = 1;"),
("bad",V,"      npushed += nb;\n","      npushed++;\n"),
("bad",V,"    phead_->size = scalar ? -mysize_ : mysize_;\n",""),
("bad",N,"    phead->rank    = rank();\n",""),
("ok",N,"    hdr->sca_tid = 0;\n    set","    set") ,
("bad",H,"    nleft -= sz;\n  }\n  return sz;","  }\n  return sz;"),
("bad",P,"    data += s1; \n    sz += s1;\n  }\n  return sz;","    data += s1; \n    sz += s1+1;\n  }\n  return sz;"),
("ok",R,"    int nr1;\n    if( iter->second.valid() )\n      nr1 = fieldinfo->blockcount = iter->second.toBlock(set);\n    else\n      nr1 = fieldinfo->blockcount = 0; // null field\n    nref += nr1;","    int nr1 = 0;\n    if( iter->second.valid() )\n      nr1 = iter->second.toBlock(set);\n    fieldinfo->blockcount = nr1;\n    nref = nref + nr1;"),
("ok",L,"  for( ; iter != items.end(); iter++,i++ )\n  {\n    Assert(i<numitems);","  while( iter != items.end() )\n  {\n    const ObjRef &item = *iter; (void)item;\n    Assert(i<numitems);",),
("ok",M,"  int blockcount = 1;\n  if( block_.valid() )\n  {\n    set.push(block_);\n    blockcount++;\n  } \n  if( payload_.valid() )\n    blockcount += payload_->toBlock(set);\n  \n  BObj::fillHeader(&hdr,blockcount);\n  return blockcount;","  int nb = 1;\n  const bool hasblk = block_.valid();\n  if( hasblk )\n  {\n    nb = 2;\n    set.push(block_);\n  } \n  if( !payload_.valid() )\n  {\n    BObj::fillHeader(&hdr,nb);\n    return nb;\n  }\n  int np = payload_->toBlock(set);\n  BObj::fillHeader(&hdr,nb+np);\n  return np+nb;"),
("ok",M,"  hdr.state     = state_;\n  hdr.flags     = flags_;","  hdr.flags     = flags_;\n  hdr.state     = state_;"),
("ok",M,"  int blockcount = 1;\n  if( block_.valid() )","  int nb0 = set.size()-1;\n  int blockcount = set.size() - nb0;\n  if( block_.valid() )"),
("ok",C,"  BObj::fillHeader(hdr,format_.valid()?2:1);","  int nb = 1;\n  if( format_.valid() )\n    nb = 2;\n  BObj::fillHeader(hdr,nb);"),
("ok",T,"    ptr += ColumnFormatPacker::pack(cols,ptr,totsize);\n    ptr","    size_t used = ColumnFormatPacker::pack(cols,ptr,totsize);\n    ptr += used;\n    ptr"),
("ok",S,"    hdrsize += sz1+sz2;","    hdrsize += sz1;\n    hdrsize += sz2;"),
("ok",H,"  size_t sz = size()*sizeof(AtomicID);\n  FailWhen(nleft<sz,\"block too small\");\n// vector is contigous, so just use:\n  if( sz )\n  {","  const size_t sz = sizeof(AtomicID)*size();\n  FailWhen(sz>nleft,\"block too small\");\n  if( sz > 0 )\n  {"),
("ok",V,"      npushed += nb;\n","      npushed = nb + npushed;\n"),
("ok",N,"      uint len = *lengths++ = ptr->copy(data,string::npos);\n      data += len;","      uint len = ptr->copy(data,string::npos);\n      *lengths = len;\n      lengths++;\n      data += len;"),
]
M=LIST
