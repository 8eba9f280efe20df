F="MEQ/src/Function.cc"; T="MEQ/src/TensorFunction.cc"; C="MeqNodes/src/Composer.cc"; S="MeqNodes/src/Selector.cc"; Q="MeqNodes/src/Condeq.cc"; A="MeqNodes/src/Add.cc"; X="MeqNodes/src/Max.cc"; U="MeqNodes/src/Multiply.cc"
M=[
("bad",F,'if( nmissing && !vellset.isFail() )','if( nmissing )'),
("bad",F,'''          for( int j=0; j<vs.numFails(); j++ )
            vellset.addFail(vs.getFail(j));
''','''          nfails++;
'''),
("bad",F,'if( nmissing == nrch || !allow_missing_data_ )','if( nmissing == nrch && !allow_missing_data_ )'),
("bad",F,'if( nmissing == nrch || !allow_missing_data_ )','if( !allow_missing_data_ )'),
("bad",F,'''        missing_planes++;
        continue;''','''        continue;'''),
("bad",F,'''        MakeFailVellSet(vellset,"uknown exception in Function::getResult");''','''        cdebug(1)<<"unknown exception"<<endl;'''),
("bad",F,'''    // count the # of fails
    if( vellset.isFail() )
      nfails++;''','''    if( vellset.isFail() && nrch )
      nfails++;'''),
("bad",F,'''  if( nfails == nplanes )
    return RES_FAIL;''','''  if( nfails )
    return RES_FAIL;'''),
("bad",F,'''  if( missing_planes == nplanes )
    return RES_MISSING;''','''  if( missing_planes+nfails == nplanes )
    return RES_MISSING;'''),
("bad",F,'''    // continue evaluation only if no fails popped up
    if( !vellset.isFail() )''','''    // continue evaluation only if no fails popped up
    if( nmissing<nrch )'''),
("bad",F,'''        else if( vs.hasValue() )
        {
          const''','''        if( vs.hasValue() )
        {
          const''') ,
("bad",F,'ipert<vs.numPertSets()','ipert<npertsets'),
("bad",T,'ipert<vs.numPertSets()','ipert<std::max(vs.numPertSets(),npertsets)'),
("bad",F,'pvs[i]->dataFlags(),flagmask_[i]','pvs[i]->dataFlags(),flagmask_[0]'),
("bad",F,'for( uint i=0; i<pvs.size(); i++ )\n    if( pvs[i] && !pvs[i]->isNull()','for( uint i=0; i<pvs.size(); i++ )\n    if( pvs[i] && !out.valid() && !pvs[i]->isNull()'),
("bad",C,'''            nfails++;
          else if( vs.isEmpty() )
            nmissing++;
        }
      }
      // else''','''            nfails++;
        }
      }
      // else'''),
("bad",C,'nfails += nres0;','nmissing += nres0;'),
("bad",S,'''        if( !vs.isFail() )
          fail = false;
        if( !vs.isEmpty() )
          missing = false;
      }
    }
  }
  else''','''        if( !vs.isEmpty() )
          fail = missing = false;
      }
    }
  }
  else'''),
("bad",Q,'      if( vs.isFail() )','      if( 0 )'),
("bad",A,'    if( values[i] )\n','    if( values[0] )\n'),
("bad",X,'if( values[i] )','if( values[i] || has_res )'),
("ok",A,'''    if( values[i] )
      result += *(values[i]);''','''  {
    const Vells *pv = values[i];
    if( !pv )
      continue;
    result += *pv;
  }'''),
("ok",F,'''  if( nfails == nplanes )
    return RES_FAIL;
  if( missing_planes == nplanes )
    return RES_MISSING;''','''  const bool all_failed = nfails == nplanes;
  if( all_failed )
    return RES_FAIL;
  if( missing_planes == nplanes )
    return RES_MISSING;'''),
("ok",F,'''    if( nmissing && !vellset.isFail() )
    {
      if( nmissing == nrch || !allow_missing_data_ )
      {
        missing_planes++;
        continue;
      }
    }
''','''    const bool skip = nmissing && !vellset.isFail() && ( nmissing == nrch || !allow_missing_data_ );
    if( skip )
    {
      missing_planes++;
      continue;
    }
'''),
("ok",C,'''        const VellSet &vs = chres.vellSet(ivs);
        presult->setVellSet(ires++,vs);
        if( vs.isFail() )
          nfails++;
        else if( vs.isEmpty() )
          nmissing++;
''','''        const VellSet &vs = chres.vellSet(ivs);
        if( vs.isEmpty() && !vs.isFail() )
          ++nmissing;
        if( vs.isFail() )
          ++nfails;
        presult->setVellSet(ires,vs);
        ires++;
'''),
("ok",F,'''        if( vs.isFail() )
        { // collect fails from child vellset
          for( int j=0; j<vs.numFails(); j++ )
            vellset.addFail(vs.getFail(j));
        }
''','''        if( vs.isFail() )
        { // collect fails from child vellset
          int nf1 = vs.numFails();
          for( int j=0; j<nf1; j++ )
            vellset.addFail(vs.getFail(j));
        }
'''),
]
M += [
('bad', 'MEQ/src/Function.cc', '      child_vs[i] = 0;\n', ''),
('bad', 'MEQ/src/Function.cc', '      values[i] = 0;\n', ''),
('bad', 'MEQ/src/Function.cc', 'chres.vellSet( chres.tensorRank()>0 ? iplane : 0 )', 'chres.vellSet( 0 )'),
('bad', 'MEQ/src/Function.cc', '        evaluateFlags(flagref,request,res_shape,child_vs);', '        if( npertsets )\n          evaluateFlags(flagref,request,res_shape,child_vs);'),
('bad', 'MEQ/src/Function.cc', '        if( flagref.valid() )\n', '        if( flagref.valid() && spids.empty() )\n'),
('bad', 'MEQ/src/Function.cc', '        MakeFailVellSetMore(vellset,x,"exception in Function::getResult");', '        cdebug(1)<<x.what()<<endl;'),
('bad', 'MEQ/src/Function.cc', 'flagmask_.assign(numChildren(),0);', 'flagmask_.assign(numChildren(),VellsFullFlagMask);'),
('bad', 'MEQ/src/Function.cc', '        flagmask_.assign(numChildren(),flag);', '        flagmask_.assign(1,flag);'),
('bad', 'MEQ/src/Function.cc', '      flagmask_ = fm;\n', '      ;\n'),
('bad', 'MeqNodes/src/Composer.cc', '          vsref <<= new VellSet;\n          nmissing += nres0;', '          vsref <<= new VellSet;'),
('bad', 'MeqNodes/src/Selector.cc', '            setVellSet(0,vs);\n      if( !vs.isFail() )\n        fail = false;', '            setVellSet(0,vs);\n      fail = false;'),
('bad', 'MeqNodes/src/Selector.cc', '        result.setVellSet(i,vs);\n        if( !vs.isFail() )\n          fail = false;\n        if( !vs.isEmpty() )\n          missing = false;\n        // update', '        result.setVellSet(i,vs);\n        if( !vs.isFail() )\n          fail = false;\n        missing = vs.isEmpty();\n        // update'),
('bad', 'MeqNodes/src/Condeq.cc', '    if( fail_vs )\n    {\n      nfails++;\n      continue;\n    }\n    // null vellset on any child produces null output\n    if( missing_data )\n    {\n      result.setNewVellSet(iplane);\n      continue;\n    }', '    if( missing_data )\n    {\n      result.setNewVellSet(iplane);\n      continue;\n    }\n    if( fail_vs )\n    {\n      nfails++;\n      continue;\n    }'),
('bad', 'MeqNodes/src/Condeq.cc', '        if( !fail_vs )\n          fail_vs = &( result.setNewVellSet(iplane) );\n        for', '        if( !fail_vs )\n          fail_vs = &( result.setNewVellSet(iplane) );\n        else\n          continue;\n        for'),
('bad', 'MeqNodes/src/Condeq.cc', 'return nfails == nplanes ? RES_FAIL : 0;', 'return nfails ? RES_FAIL : 0;'),
('bad', 'MeqNodes/src/Condeq.cc', '        missing_data = true;\n        continue;', '        continue;'),
('bad', 'MeqNodes/src/Multiply.cc', 'values[0] ? *values[0] : Vells::Unity()', '*values[0]'),
('bad', 'MEQ/src/TensorFunction.cc', 'dataFlags(),flagmask_[ichild])', 'dataFlags(),flagmask_[0])'),
('bad', 'MEQ/src/TensorFunction.cc', '        out_flags[i]() |= *out;', '        ;'),
('bad', 'MEQ/src/TensorFunction.cc', 'i<pvs[ichild].size(); i++ )\n        if( pvs', 'i<1 && i<pvs[ichild].size(); i++ )\n        if( pvs'),
('bad', 'MEQ/src/TensorFunction.cc', '  for( uint ichild = 0; ichild < nchild; ichild++ )\n  {\n    Vells::Ref child_flags;', '  for( uint ichild = 1; ichild < nchild; ichild++ )\n  {\n    Vells::Ref child_flags;'),
('bad', 'MEQ/src/TensorFunction.cc', '      vs.setDataFlags(flag_vector_[ivs]);', '      if( !ivs )\n        vs.setDataFlags(flag_vector_[ivs]);'),
('bad', 'MEQ/src/Function.cc', '          FailWhen(!val.isCompatible(res_shape),"shape mismatch for result of child \'"+label.toString()+"\'");\n          child_vs[i] = &vs;\n          values[i] = &val;', '          values[i] = &val;\n          if( val.isCompatible(res_shape) )\n            child_vs[i] = &vs;'),
('ok', 'MeqNodes/src/Selector.cc', '        if( !vs.isFail() )\n          fail = false;\n        if( !vs.isEmpty() )\n          missing = false;\n      }\n    }\n  }\n  else', '        fail = fail && vs.isFail();\n        missing = missing && vs.isEmpty();\n      }\n    }\n  }\n  else'),
('ok', 'MeqNodes/src/Selector.cc', '  bool fail    = true;', '  bool have_value = false; (void)have_value;\n  bool fail    = true;'),
('ok', 'MeqNodes/src/Composer.cc', '    if( nfails == ires )\n      return RES_FAIL;\n    if( nmissing == ires )\n      return RES_MISSING;\n', '    const int code = nfails == ires ? RES_FAIL : nmissing == ires ? RES_MISSING : 0;\n    if( code )\n      return code;\n'),
('ok', 'MEQ/src/Function.cc', 'int Function::getResult (Result::Ref &resref,', 'static void collectFails (VellSet &out,const VellSet &vs)\n{\n  for( int j=0; j<vs.numFails(); j++ )\n    out.addFail(vs.getFail(j));\n}\n\nint Function::getResult (Result::Ref &resref,', ('MEQ/src/Function.cc', '          for( int j=0; j<vs.numFails(); j++ )\n            vellset.addFail(vs.getFail(j));\n        }\n        else if', '          collectFails(vellset,vs);\n        }\n        else if')),
('ok', 'MEQ/src/Function.cc', "  if( nfails == nplanes )\n    return RES_FAIL;\n  if( missing_planes == nplanes )\n    return RES_MISSING;\n   // return 0 flag, since we don't add any dependencies of our own\n  return 0;", '  int retcode = 0;\n  if( missing_planes == nplanes )\n    retcode = RES_MISSING;\n  if( nfails == nplanes )\n    retcode = RES_FAIL;\n  return retcode;'),
('ok', 'MEQ/src/Function.cc', '    if( nmissing && !vellset.isFail() )\n    {\n      if( nmissing == nrch || !allow_missing_data_ )\n      {\n        missing_planes++;\n        continue;\n      }\n    }\n    // continue evaluation only if no fails popped up\n    if( !vellset.isFail() )\n    {', '    if( vellset.isFail() )\n    {\n      nfails++;\n      continue;\n    }\n    if( nmissing && ( nmissing == nrch || !allow_missing_data_ ) )\n    {\n      missing_planes++;\n      continue;\n    }\n    {'),
('ok', 'MeqNodes/src/Condeq.cc', '      if( !vs.hasValue() )\n      {\n        missing_data = true;\n        continue;\n      }\n      child_vs[i] = &vs;\n', '      const bool present = vs.hasValue();\n      missing_data |= !present;\n      if( !present )\n        continue;\n      child_vs[i] = &vs;\n'),
('ok', 'MEQ/src/TensorFunction.cc', '    Vells::Ref child_flags;\n    if( flagmask_[ichild] )\n    {\n', '    Vells::Ref child_flags;\n    const int mask = flagmask_[ichild];\n    if( mask )\n    {\n', ('MEQ/src/TensorFunction.cc', 'dataFlags(),flagmask_[ichild])', 'dataFlags(),mask)')),
('ok', 'MeqNodes/src/Add.cc', '  for( uint i=0; i<values.size(); i++ )\n    if( values[i] )\n      result += *(values[i]);', '  for( vector<const Vells*>::const_iterator iter = values.begin(); iter != values.end(); iter++ )\n    if( *iter )\n      result += **iter;'),
('ok', 'MeqNodes/src/Max.cc', '      if( values[i] )\n      {\n        if( has_res )', '      {\n        if( !values[i] )\n          continue;\n        if( has_res )'),
]
