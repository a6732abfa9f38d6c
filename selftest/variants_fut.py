F, TCF, UTF, TLH = 'include/falcon/fut/fut.h', 'fut/testcase.cpp', 'fut/unittest.cpp', 'include/falcon/fut/timelapse.h'
# ---------------------------------------------------------------- C34
V('C34','bad',F,'FALCON_TEST_CHECK_LOGIC(_EXPECTED_,>=,_ACTUAL_)','FALCON_TEST_CHECK_LOGIC(_EXPECTED_,>,_ACTUAL_)')
V('C34','bad',F,'FALCON_TEST_CHECK_LOGIC(_EXPECTED_,<=,_ACTUAL_)','FALCON_TEST_CHECK_LOGIC(_ACTUAL_,<=,_EXPECTED_)')
V('C34','bad',F,'		if(!( (_EXPECTED_) _CHECK_ (_ACTUAL_) )) { \\\n','		if(( (_EXPECTED_) _CHECK_ (_ACTUAL_) )) { \\\n')
V('C34','bad',F,'			this->checkFail( __FILE__, __LINE__, #_EXPECTED_ " " #_CHECK_ " " #_ACTUAL_, ss.str().c_str() ); \\\n			return; \\\n','			this->checkFail( __FILE__, __LINE__, #_EXPECTED_ " " #_CHECK_ " " #_ACTUAL_, ss.str().c_str() ); \\\n')
V('C34','bad',F,'		   ss << (_ACTUAL_); \\\n			this->checkFail( __FILE__, __LINE__, #_EXPECTED_','		   ss << (_EXPECTED_); \\\n			this->checkFail( __FILE__, __LINE__, #_EXPECTED_')
V('C34','bad',F,'__LINE__, #_EXPECTED_ " " #_CHECK_','1, #_EXPECTED_ " " #_CHECK_')
V('C34','bad',F,'			this->checkFail( __FILE__, __LINE__, #_ACTUAL_ " should be false", ss.str().c_str() ); \\\n			return; \\\n','			this->checkFail( __FILE__, __LINE__, #_ACTUAL_ " should be false", ss.str().c_str() ); \\\n')
V('C34','bad',F,'      if((_ACTUAL_)) { \\','      if((_ACTUAL_) && sizeof(_ACTUAL_) > 1) { \\')
V('C34','bad',F,'               ==,static_cast<::falcon::int64>((_ACTUAL_)*10000.0))','               ==,static_cast<::falcon::int64>((_ACTUAL_)*1000.0))')
V('C34','bad',F,'FALCON_TEST_CHECK_LOGIC(static_cast<::falcon::int64>((_EXPECTED_)*10000.0),\\\n               ==,','FALCON_TEST_CHECK_LOGIC(static_cast<::falcon::int64>((_EXPECTED_)*10000.0),\\\n               >=,')
V('C34','bad',F,'     } catch(const _CATCH_&) {}','     } catch(...) {}')
V('C34','bad',F,'         ss << "Expected exception of type " #_CATCH_ " wasn\'t thrown"; \\\n         this->checkFail( __FILE__, __LINE__, ss.str().c_str(), "" ); \\\n','         ss << "Expected exception of type " #_CATCH_ " wasn\'t thrown"; \\\n')
V('C34','bad',F,'     } catch(...) {}\n\n\n#define EXPECT_NO','     } catch(const std::exception&) {}\n\n\n#define EXPECT_NO')
V('C34','bad',F,'     catch(...) { \\\n        this->checkFail( __FILE__, __LINE__, "Unknown exception thrown", "" ); \\\n     }','     catch(...) {}')
V('C34','bad',TCF,'   p->status = FAIL;\n}\n\n\nvoid TestCase::SetUp','   if(p->status == NONE) p->status = FAIL;\n}\n\n\nvoid TestCase::SetUp')
V('C34','bad',TCF,'   p->failLine = line;\n   p->failFile = fname;','   p->failFile = fname;')
V('C34','bad',TCF,'      p->failDesc += actual;\n','')
V('C34','bad',F,'std::string(_EXPECTED_),==,std::string(_ACTUAL_)','std::string(_EXPECTED_).size(),==,std::string(_ACTUAL_).size()')
V('C34','same',F,'		if(!( (_EXPECTED_) _CHECK_ (_ACTUAL_) )) { \\\n','		if( (_EXPECTED_) _CHECK_ (_ACTUAL_) ) {} else { \\\n')
V('C34','same',F,'		if(!( (_EXPECTED_) _CHECK_ (_ACTUAL_) )) { \\\n','		if(const bool check_failed_ = !( (_EXPECTED_) _CHECK_ (_ACTUAL_) )) { \\\n')
V('C34','same',TCF,'''   p->failDesc = expected;
   if(*actual) {
      p->failDesc += " (Actually \\"";
      p->failDesc += actual;
      p->failDesc += "\\")";
   }
''','''   std::string desc(expected);
   if(actual[0] != '\\0') {
      desc = desc + " (Actually \\"" + actual + "\\")";
   }
   p->failDesc = desc;
''')
V('C34','same',TCF,'''   p->failLine = line;
   p->failFile = fname;
   //strip path
   std::string::size_type pos = p->failFile.rfind(FALCON_DIR_SEP_CHR);
   if(pos != std::string::npos) {
      p->failFile = p->failFile.substr(pos+1);
   }
   p->status = FAIL;
''','''   std::string file(fname);
   const std::string::size_type pos = file.rfind(FALCON_DIR_SEP_CHR);
   if(pos != std::string::npos) {
      file.erase(0, pos+1);
   }
   fail(file.c_str(), line, p->failDesc.c_str());
''')
V('C34','same',F,'FALCON_TEST_CHECK_LOGIC(std::string(_EXPECTED_),==,std::string(_ACTUAL_))','FALCON_TEST_CHECK_LOGIC(std::string(_EXPECTED_).compare(std::string(_ACTUAL_)) == 0 ? std::string(_ACTUAL_) : std::string(_EXPECTED_),==,std::string(_ACTUAL_))') if 0 else None
V('C34','same',F,'''         std::ostringstream ss; \\
         ss << "Expected exception of type " #_CATCH_ " wasn't thrown"; \\
         this->checkFail( __FILE__, __LINE__, ss.str().c_str(), "" ); \\
''','''         this->checkFail( __FILE__, __LINE__, "Expected exception of type " #_CATCH_ " wasn't thrown", "" ); \\
''')
