N="DMI/src/NumArray.cc"; V="DMI/src/Vec.cc"; R="DMI/src/Record.cc"; L="DMI/src/List.cc"; M_="OCTOPUSSY/src/Message.cc"; P="DMI/src/Packer.h"; B="DMI/src/BlockSet.h"; BC="DMI/src/BlockSet.cc"
C="VisCube/src/ColumnarTableTile.cc"; T="VisCube/src/TableFormat.cc"; D="DMI/src/DynamicTypeManager.cc"; S="OCTOPUSSY/src/Subscriptions.cc"; LV="OCTOPUSSY/src/LatencyVector.cc"; H="DMI/src/HIID.cc"
M=[
("bad",N,'  FailWhen(hsize < sizeof(Header),"malformed data block");\n',''),
("bad",N,'    FailWhen( rank < 1 || rank > MaxLorrayRank,"invalid array rank" );\n    FailWhen( hsize < sizeof(Header)+rank*sizeof(uint), "malformed data block" );\n','    FailWhen( rank < 1 || rank > MaxLorrayRank,"invalid array rank" );\n'),
("bad",N,'      FailWhen( int(n) < 0 || (n && itsSize > (size_t(1)<<48)/n),"invalid array shape" );\n',''),
("bad",N,'        FailWhen( hsize < expected_size,"malformed data block" );\n        // assign','        // assign'),
("bad",N,'        expected_size += len;   // adjust expect size & check for spacd\n        FailWhen( hsize < expected_size,"malformed data block" );','        FailWhen( hsize < expected_size,"malformed data block" );\n        expected_size += len;'),
("bad",N,'      FailWhen( hsize < expected_size,"malformed data block" );\n      // actual','      // actual'),
("bad",V,'  FailWhen( hsize < sizeof(HeaderBlock),"malformed header block" );\n',''),
("bad",V,'  FailWhen( hsize < sizeof(HeaderBlock),"malformed header block" );\n','  FailWhen( hsize < sizeof(BObj::Header),"malformed header block" );\n'),
("bad",V,'      FailWhen( hsize != sizeof(HeaderBlock)+sizeof(int)*mysize_,"incorrect block size" );\n',''),
("bad",V,'            npopped += nbl;\n',''),
("bad",V,'  FailWhen(npopped != blockcount,"mismatching block count in header block");\n',''),
("bad",R,'    FailWhen( idsize < 0 || hsize < off_hids+idsize,"malformed header block" );','    FailWhen( hsize < off_hids+idsize,"malformed header block" );'),
("bad",R,'    FailWhen( idsize < 0 || hsize < off_hids+idsize,"malformed header block" );','    FailWhen( idsize < 0,"malformed header block" );'),
("bad",R,'  FailWhen( hsize < off_hids,"malformed header block" );\n',''),
("bad",R,'      nref += bc;\n',''),
("bad",L,'  FailWhen(hsize != sizeof(Header)+sizeof(int)*nfields,"malformed header block");\n',''),
("bad",L,'  FailWhen(nref!=blockcount,"total block count mismatch in header");\n',''),
("bad",M_,'hdr.idsize + hdr.fromsize + hdr.tosize + hdr.latsize,','hdr.idsize + hdr.fromsize + hdr.latsize,'),
("bad",M_,'hdr.idsize<0 || hdr.fromsize<0 || hdr.tosize<0','hdr.idsize<0 || hdr.tosize<0'),
("bad",M_,'    set.pop(block_);\n    blockcount++;','    set.pop(block_);'),
("bad",M_,'    blockcount += nb0 - set.size();\n',''),
("bad",P,'      size_t s1 = *(hdr++);\n      sz0 += s1;\n      FailWhen(sz<sz0,"corrupt block");\n      ElemPacker::unpack(*arr,data,s1);','      size_t s1 = *(hdr++);\n      sz0 += s1;\n      ElemPacker::unpack(*arr,data,s1);'),
("bad",P,'    sz0 += elsize *= n;\n    FailWhen(sz<sz0,"corrupt block");','    sz0 += elsize *= n;'),
("bad",P,'      sz0 += s1;\n      FailWhen(sz<sz0,"corrupt block");\n      memcpy(&val,data,s1);','      sz0 += s1;\n      memcpy(&val,data,s1);'),
("bad",P,'  FailWhen(n0>sz,"corrupt block");\n',''),
("bad",P,'  FailWhen(sz<sizeof(size_t),"corrupt block");\n  const size_t *hdr = static_cast<const size_t*>(block);\n  size_t n   = *(hdr++),','  const size_t *hdr = static_cast<const size_t*>(block);\n  size_t n   = *(hdr++),'),
("bad",P,'  FailWhen(sz!=sizeof(T),"corrupt block");\n  memcpy(&obj','  memcpy(&obj'),
("bad",B,'        FailWhen(refs.empty(),"no more blocks in set");\n        out.xfer','        out.xfer'),
("bad",BC,'count<0 || count>size()','count>size()'),
("bad",C,'hdr->idsize<0 || hdr->idsize>maxsz','hdr->idsize>maxsz'),
("bad",C,'hdr->idsize<0 || hdr->idsize>maxsz','hdr->idsize<0'),
("bad",T,'  FailWhen(block->size()!=sizeof(Header)+hdr->cf_size+hdr->cs_size,"corrupt block");\n',''),
("bad",D,'  FailWhen( !ptr,"Unregistered type "+tid.toString() );\n',''),
("bad",D,'    FailWhen( bset.front()->size() < sizeof(BObj::Header),"malformed header block" );\n',''),
("bad",S,'    chksize += sz1 + sz2;\n','    chksize += sz1;\n'),
("bad",S,'  FailWhen(sz<chksize,"corrupt block");\n  const char','  const char'),
("bad",S,'  FailWhen(sz<sizeof(size_t),"corrupt block");\n',''),
("bad",LV,'  FailWhen(sz < sizeof(tms0),"block too small");\n',''),
("bad",LV,'  FailWhen(sz < sizeof(obj.first),"block too small");\n',''),
# behaviour preserving
("ok",N,'  size_t hsize = href->size();\n','  const size_t hsize = href->size();\n  dprintf1(4)("%d bytes\\n",int(hsize));\n'),
("ok",N,'    FailWhen( hsize < sizeof(Header)+rank*sizeof(uint), "malformed data block" );','    const size_t full = sizeof(Header)+rank*sizeof(uint);\n    if( full > hsize )\n    {\n      Throw("malformed data block");\n    }'),
("ok",V,'  FailWhen( mysize_ < 0,"malformed header block" );','  if( !( mysize_ >= 0 ) )\n    Throw("malformed header block");'),
("ok",V,'        for( int i=0; i<mysize_; i++ ) \n        {\n          int nbl = blockcounts[i];','        int i = -1;\n        while( ++i < mysize_ )\n        {\n          int nbl = blockcounts[i];'),
("ok",R,'    FailWhen( idsize < 0 || hsize < off_hids+idsize,"malformed header block" );\n    HIID id(chead+off_hids,idsize);\n    off_hids += idsize;','    FailWhen( idsize < 0,"malformed header block" );\n    const size_t off_next = off_hids + idsize;\n    FailWhen( hsize < off_next,"malformed header block" );\n    HIID id(chead+off_hids,idsize);\n    off_hids = off_next;'),
("ok",L,'  const Header *hdata = static_cast<const Header *>( headref->data() );\n  int blockcount','  const Header *hdata = headref->pdata<Header>();\n  int blockcount'),
("ok",L,'      nref += nb;','      nref = nref + nb;'),
("ok",M_,'  const HeaderBlock & hdr = *href->pdata<HeaderBlock>();','  const HeaderBlock * phdr = href->pdata<HeaderBlock>();\n  const HeaderBlock & hdr = *phdr;'),
("ok",P,'      size_t s1 = *(hdr++);\n      sz0 += s1;\n      FailWhen(sz<sz0,"corrupt block");\n      ElemPacker::unpack(*arr,data,s1);','      const size_t s1 = *hdr;\n      hdr++;\n      sz0 = sz0 + s1;\n      FailWhen(sz<sz0,"corrupt block");\n      ElemPacker::unpack(*arr,data,s1);'),
("ok",BC,'  FailWhen( count<0 || count>size(),"Too many refs requested in popMove" );','  const bool okay = count >= 0 && count <= cursize;\n  FailWhen( !okay,"Too many refs requested in popMove" );'),
("ok",S,'  while( n-->0 )\n  {','  for( ; n>0; n-- )\n  {'),
("ok",C,'hdr->idsize<0 || hdr->idsize>maxsz','!(hdr->idsize>=0) || maxsz<hdr->idsize'),
]
