TCF, UTF = 'fut/testcase.cpp', 'fut/unittest.cpp'
FUTALL = 'C30 C31 C32 C33 C36 C37 C39 C40 C41 C42 C43'
# ---------------------------------------------------------------- bad: C30, C31
V('C30','bad',TCF,'         try { TearDown(); } catch(...) {}\n','')
V('C30','bad',TCF,'         try { TearDown(); } catch(...) {}\n','         TearDown();\n')
V('C30','bad',TCF,'      if(p->status == NONE) {\n         p->status =','      {\n         p->status =')
V('C30','bad',TCF,'p->errCapture.str().empty() ? SUCCESS : OUT_ON_ERROR_STREAM','SUCCESS')
V('C30','bad',TCF,'p->errCapture.str().empty() ? SUCCESS','p->outCapture.str().empty() ? SUCCESS')
V('C30','bad',TCF,'   catch(...) {\n      p->status = ERROR;','   catch(...) {\n      p->status = FAIL;')
V('C30','bad',TCF,'      p->failDesc = e.what();','      if(p->failDesc.empty()) p->failDesc = e.what();')
V('C30','bad',TCF,'   p->failDesc.clear();\n','')
V('C30','bad',TCF,'   p->failLine = 0;\n','')
V('C30','bad',TCF,'''      if(p->status == NONE) {
         p->status = p->errCapture.str().empty() ? SUCCESS : OUT_ON_ERROR_STREAM;
      }
      TearDown();
''','''      TearDown();
      p->status = p->errCapture.str().empty() ? SUCCESS : OUT_ON_ERROR_STREAM;
''')
V('C31','bad',TCF,'   p->outCapture.str("");\n','')
V('C31','bad',TCF,'   p->errCapture.str("");\n','')
V('C31','bad',TCF,'   p->errCaptureStr.clear();\n','')
V('C31','bad',TCF,'      std::cerr.rdbuf(p->errCapture.rdbuf());','      std::cerr.rdbuf(p->outCapture.rdbuf());')
V('C31','bad',TCF,'      std::cerr.rdbuf(p->errbuf);\n','      std::cerr.rdbuf(p->outbuf);\n')
V('C31','bad',TCF,'      p->errCaptureStr = p->errCapture.str();','      p->errCaptureStr = p->outCapture.str();')
V('C31','bad',TCF,'   if (capture) {\n      p->outbuf','   if (capture || p->outbuf) {\n      p->outbuf')
V('C31','bad',TCF,'      p->outbuf = std::cout.rdbuf();\n','      if(!p->outbuf) p->outbuf = std::cout.rdbuf();\n', TCF, '      std::cout.rdbuf(p->outbuf);\n', '      std::cout.rdbuf(p->errbuf);\n')
# ---------------------------------------------------------------- bad: the suite
V('C39','bad',UTF,'            p->status = -1;\n            p->failedCount++;','            p->status = component.failures ? p->status : -1;\n            p->failedCount++;\n            if(component.failures) p->status = 0;')
V('C39','bad',UTF,'         if (!hasPassed(tcase))\n         {\n            p->status = -1;','         if (tcase->status() == TestCase::FAIL)\n         {\n            p->status = -1;')
V('C39','bad',UTF,'            p->status = -1;\n            p->failedCount++;','            p->failedCount++;')
V('C39','bad',UTF,'   p->status = 0;\n   p->failedCount = 0;','   p->failedCount = 0;', UTF,'     p->status = -1;\n     return -1;\n   }\n\n   return 0;','     p->status = -1;\n   }\n\n   return p->status;')
V('C39','bad',UTF,'   const bool performAll = testsToPerform.empty();','   const bool performAll = testsToPerform.size() < 2;')
V('C39','bad',UTF,'      auto& tests = component->tests;\n','      auto& tests = component->tests;\n      if(tests.empty())\n')
V('C39','bad',UTF,'               return std::string(first->caseName()) < second->caseName(); }),\n         tcase);','               return std::string(first->caseName()) < second->caseName(); }),\n         1 + (tests.size() == 1), tcase);')
V('C39','bad',UTF,'     p->status = -1;\n     return -1;','     p->status = -1;\n     return p->verbosity == SILENT ? -1 : 0;')
V('C39','bad',UTF,'   return p->status;\n}\n\n\nint UnitTest::performTest','   return p->status * 256;\n}\n\n\nint UnitTest::performTest')
V('C39','bad',UTF,'   if(titer == p->testsByName.end()) {\n      std::ostringstream ss;','   if(titer == p->testsByName.end() && !p->tests.empty()) titer = p->testsByName.begin();\n   if(titer == p->testsByName.end()) {\n      std::ostringstream ss;')
V('C39','bad',UTF,'      status = performUnitTests();\n      destroy();','      performUnitTests();\n      destroy();')
V('C39','bad',UTF,'         tcase->run();\n         endTest(count, tcase);','         tcase->run();\n         endTest(count, tcase);\n         if(tcase->status() == TestCase::ERROR) break;', UTF, '         if (!hasPassed(tcase))\n         {\n            p->status', '         if (!hasPassed(tcase))\n         {\n            p->status')
# C36
V('C36','bad',UTF,'   if(p->verbosity >= REPORT_BEGIN) {','   if(p->verbosity > REPORT_BEGIN) {')
V('C36','bad',UTF,'      && (p->verbosity >= REPORT_STDOUT || (p->verbosity > SILENT && !hasPassed(tc)))) {','      && (p->verbosity >= REPORT_STDERR || (p->verbosity > SILENT && !hasPassed(tc)))) {')
V('C36','bad',UTF,'(p->verbosity >= REPORT_STDERR || (p->verbosity > SILENT && !hasPassed(tc)))','(p->verbosity >= REPORT_STDERR || !hasPassed(tc))')
V('C36','bad',UTF,'(p->verbosity >= REPORT_STDERR || (p->verbosity > SILENT && !hasPassed(tc)))','(p->verbosity >= REPORT_STDERR || (p->verbosity > REPORT_FAILURE && !hasPassed(tc)))')
V('C36','bad',UTF,'      std::cout << tc->capturedErr() << "\\n";','      std::cout << tc->capturedOut() << "\\n";')
V('C36','bad',UTF,'   if(p->verbosity > SILENT && tc->status() == TestCase::ERROR) {','   if(p->verbosity > REPORT_FAILURE && tc->status() == TestCase::ERROR) {')
V('C36','bad',UTF,'                << tc->failFile() << ": " << tc->failLine() << "\\n";','                << tc->failFile() << "\\n";')
V('C36','bad',UTF,'hasPassed(tc) ? "OK" : "FAIL", tc','tc->status() != TestCase::FAIL ? "OK" : "FAIL", tc')
V('C36','bad',UTF,'   else if(p->verbosity >= REPORT_STATUS) {\n      writeTestName','   else if(p->verbosity >= REPORT_FAILURE) {\n      writeTestName')
V('C36','bad',UTF,'   if(tc->capturedOut()[0]\n      && (','   if(tc->capturedErr()[0]\n      && (')
V('C36','bad',UTF,'      verbosity(UnitTest::REPORT_STATUS)','      verbosity(UnitTest::REPORT_BEGIN)')
V('C36','bad',UTF,'   tc->beginTest(p->m_capture);','   tc->beginTest(p->m_capture && p->verbosity != REPORT_BEGIN);')
V('C36','bad',UTF,'substr(0, p->screenWidth);','substr(0, 8);')
# C37
V('C37','bad',UTF,'            if (!hasPassed(tcase))\n            {\n               if(first)','            if (tcase->status() == TestCase::FAIL)\n            {\n               if(first)')
V('C37','bad',UTF,'            if (!hasPassed(tcase))\n            {\n               if(first)','            {\n               if(first)')
V('C37','bad',UTF,'( component.failures == 0 ? "Passed\\n"','( p->failedCount == 0 ? "Passed\\n"')
V('C37','bad',UTF,'( p->status == 0 ? "Passed\\n"','( p->failedCount < 2 ? "Passed\\n"')
V('C37','bad',UTF,'         for(auto tcase: p->testsToPerofm ) {\n            if (!hasPassed','         for(auto tcase: p->tests ) {\n            if (!hasPassed')
V('C37','bad',UTF,'   if(p->verbosity > SILENT) {\n      if (p->status','   if(p->verbosity > REPORT_FAILURE) {\n      if (p->status')
V('C37','bad',UTF,'         std::cout << "  Component " << component.name\n','         if(component.failures) continue;\n         std::cout << "  Component " << component.name\n')
V('C37','bad',UTF,'         if (!hasPassed(tcase))\n         {\n            p->status = -1;\n            p->failedCount++;\n            component.failures++;','         if (!hasPassed(tcase))\n         {\n            p->status = -1;\n            p->failedCount++;\n            component.failures = p->failedCount;', UTF, 'itcat.second;\n            std::cout << "  Component', 'itcat.second;\n            std::cout << "  Component', UTF, '( component.failures == 0 ? "Passed\\n"','( component.failures <= 1 && p->failedCount == 2 ? "Passed\\n"')
# C33
V('C33','bad',UTF,'level <= REPORT_STDOUT)','level < REPORT_STDOUT)')
V('C33','bad',UTF,'level >= SILENT && level','level')
V('C33','bad',UTF,'if(is >> level && level','is >> level; if(level')
V('C33','bad',UTF,'         if(iter == p->testsByName.end()) {\n            std::cout << "Unknown test case " << testName << "\\n";\n            return 1;\n         }\n','         if(iter == p->testsByName.end()) {\n            std::cout << "Unknown test case " << testName << "\\n";\n            continue;\n         }\n')
V('C33','bad',UTF,'      if(opt == "-q") {','      if(opt.compare(0, 2, "-q") == 0) {')
V('C33','bad',UTF,'         usage();\n         return 1;\n      }\n\n      // If','         usage();\n         return 0;\n      }\n\n      // If')
V('C33','bad',UTF,'      usage();\n      return 1;\n   }\n\n   return 0;','      usage();\n   }\n\n   return 0;')
V('C33','bad',UTF,'         p->m_capture = false;','         p->m_capture = p->verbosity != SILENT;')
V('C33','bad',UTF,'         p->unitTestName = argv[i];','         p->unitTestId = argv[i];')
V('C33','bad',UTF,'   if(!p->xmlReport.empty()) {','   if(!p->xmlReport.empty() && p->status == 0) {', UTF, '   std::ofstream fout(p->xmlReport);', '   std::ofstream fout(p->xmlReport + ".xml");')
V('C33','bad',UTF,'opt == "-x" && ++i < argc','opt == "-x" && ++i <= argc')
V('C33','bad',UTF,'status = parseParams(argc-1, argv+1);','status = parseParams(argc-2, argv+1);')
# C32
V('C32','bad',UTF,"case '<': result += \"&lt;\"; break;\n",'')
V('C32','bad',UTF,"case '\"': result += \"&quot;\"; break;\n",'')
V('C32','bad',UTF,"case '&': result += \"&amp;\"; break;\n",'')
V('C32','bad',UTF,"chr) >= 0x20 ||","chr) >= 0x10 ||")
V('C32','bad',UTF,"static_cast<unsigned char>(chr) >= 0x20","chr >= 0x20")
V('C32','bad',UTF,'<< xmlEscape(tcasep->failDesc()) << "\\" "','<< tcasep->failDesc() << "\\" "')
V('C32','bad',UTF,'"File: " << xmlEscape(tcasep->failFile())','"File: " << tcasep->failFile()')
V('C32','bad',UTF,'const std::string unitTestName = xmlEscape(p->unitTestName);','const std::string unitTestName = p->unitTestName.size() > 64 ? p->unitTestName : xmlEscape(p->unitTestName);')
V('C32','bad',UTF,'<< p->testsToPerofm.size() <<','<< p->tests.size() <<')
V('C32','bad',UTF,'<< p->failedCount <<','<< (p->status != 0) <<')
V('C32','bad',UTF,'<< component.failures << "\\" "','<< p->failedCount << "\\" "')
V('C32','bad',UTF,'         if(!hasPassed(tcasep)) {\n            fout','         if(tcasep->status() == TestCase::FAIL) {\n            fout')
V('C32','bad',UTF,'         fout << "</testcase>\\n";\n','         if(hasPassed(tcasep)) fout << "</testcase>\\n";\n')
V('C32','bad',UTF,'   if(!p->xmlReport.empty()) {','   if(!p->xmlReport.empty() && p->status == 0) {')
V('C32','bad',UTF,'      fout << "</testsuite>\\n";\n   }\n','      fout << "</testsuite>\\n";\n      if(component.failures) break;\n   }\n')
# ---------------------------------------------------------------- same
V(FUTALL,'same',TCF,'''   if (capture) {
      p->outbuf = std::cout.rdbuf();
      p->errbuf = std::cerr.rdbuf();
      std::cout.rdbuf(p->outCapture.rdbuf());
      std::cerr.rdbuf(p->errCapture.rdbuf());
   }
''','''   if (capture) {
      p->outbuf = std::cout.rdbuf(p->outCapture.rdbuf());
      p->errbuf = std::cerr.rdbuf(p->errCapture.rdbuf());
   }
''')
V(FUTALL,'same',TCF,'''      if(p->status == NONE) {
         p->status = p->errCapture.str().empty() ? SUCCESS : OUT_ON_ERROR_STREAM;
      }
''','''      if(p->status == NONE) {
         const std::string errors = p->errCapture.str();
         if(errors.size() == 0) {
            status(SUCCESS);
         } else {
            status(OUT_ON_ERROR_STREAM);
         }
      }
''')
V(FUTALL,'same',UTF,'''      auto catIter = p->componentToPerform.find(tcase->componentName());
      Component* component;
      if(catIter == p->componentToPerform.end()) {
         component = &p->componentToPerform.insert(
            std::make_pair(tcase->componentName(),
               Component(tcase->componentName()))).first->second;
      }
      else {
         component = &catIter->second;
      }
''','''      const std::string name = tcase->componentName();
      auto catIter = p->componentToPerform.find(name);
      if(catIter == p->componentToPerform.end()) {
         catIter = p->componentToPerform.emplace(name, Component(name)).first;
      }
      Component* component = &catIter->second;
''')
V(FUTALL,'same',UTF,'''      for(auto tcase: component.tests ) {
         beginTest(++count, tcase);
         tcase->run();
         endTest(count, tcase);

         if (!hasPassed(tcase))
         {
            p->status = -1;
            p->failedCount++;
            component.failures++;
         }
      }
''','''      for(size_t i = 0; i < component.tests.size(); ++i) {
         TestCase* tcase = component.tests[i];
         ++count;
         beginTest(count, tcase);
         tcase->run();
         endTest(count, tcase);

         if (hasPassed(tcase)) {
            continue;
         }
         component.failures += 1;
         p->failedCount += 1;
         p->status = -1;
      }
''')
V(FUTALL,'same',UTF,'''   if(tc->capturedOut()[0]
      && (p->verbosity >= REPORT_STDOUT || (p->verbosity > SILENT && !hasPassed(tc)))) {
      std::cout << "\\n======================================================================\\n";
      std::cout << "STDOUT " << tc->fullName() << "\\n";
      std::cout << "======================================================================\\n";
      std::cout << tc->capturedOut() << "\\n";
   }
''','''   const std::string output(tc->capturedOut());
   const bool failed = !hasPassed(tc);
   const bool show = failed ? p->verbosity >= REPORT_FAILURE : p->verbosity >= REPORT_STDOUT;
   if(show && !output.empty()) {
      const std::string rule(70, '=');
      std::cout << std::endl << rule << std::endl
                << "STDOUT " << tc->fullName() << std::endl << rule << std::endl << output << std::endl;
   }
''')
V(FUTALL,'same',UTF,'''bool UnitTest::hasPassed(TestCase* tcase) const
{
   return ! ((tcase->status() == TestCase::OUT_ON_ERROR_STREAM && p->opt_erroutIsFail)
            || tcase->status() != TestCase::SUCCESS);
}''','''bool UnitTest::hasPassed(TestCase* tcase) const
{
   switch(tcase->status()) {
   case TestCase::SUCCESS: return true;
   default: return false;
   }
}''')
V(FUTALL,'same',UTF,'''         bool first = true;
         for(auto tcase: p->testsToPerofm ) {
            if (!hasPassed(tcase))
            {
               if(first) {
                  std::cout << "\\n======================================================================"
                     << "\\nFailed cases: ";
                  first = false;
               }
               else {
                  std::cout << ", ";
               }
               std::cout << tcase->fullName();
            }
         }
         if(!first) {
            std::cout << "\\n======================================================================\\n";
         }
''','''         std::ostringstream names;
         for(auto tcase: p->testsToPerofm ) {
            if (hasPassed(tcase)) {
               continue;
            }
            if(names.str().empty()) {
               names << "\\n======================================================================\\nFailed cases: ";
            }
            else {
               names << ", ";
            }
            names << tcase->fullName();
         }
         if(!names.str().empty()) {
            std::cout << names.str() << "\\n======================================================================\\n";
         }
''')
V(FUTALL,'same',UTF,'''      else if(opt == "-v" && ++i < argc) {
         std::istringstream is(argv[i]);
         int level;
         if(is >> level && level >= SILENT && level <= REPORT_STDOUT) {
            setVerbosity(static_cast<t_verbosity>(level));
            continue;
         }
      }
''','''      else if(opt == "-v" && i + 1 < argc) {
         std::istringstream is(argv[++i]);
         int level = -1;
         is >> level;
         if(!is.fail() && !(level < SILENT || level > REPORT_STDOUT)) {
            setVerbosity(static_cast<t_verbosity>(level));
            continue;
         }
      }
''')
V(FUTALL,'same',UTF,'''         std::string testName = argv[i];
         auto iter = p->testsByName.find(testName);
         if(iter == p->testsByName.end()) {
            std::cout << "Unknown test case " << testName << "\\n";
            return 1;
         }

         p->testsToPerofm.push_back(iter->second);
         continue;
''','''         const std::string testName(argv[i]);
         if(p->testsByName.count(testName) == 0) {
            std::cout << "Unknown test case " << testName << "\\n";
            return 1;
         }

         p->testsToPerofm.push_back(p->testsByName.at(testName));
         continue;
''')
V(FUTALL,'same',UTF,'''      case '&': result += "&amp;"; break;
      case '<': result += "&lt;"; break;
      case '>': result += "&gt;"; break;
      case '"': result += "&quot;"; break;
      default:
         // other control characters are not valid in XML
         if(static_cast<unsigned char>(chr) >= 0x20 || chr == '\\n' || chr == '\\t' || chr == '\\r') {
            result += chr;
         }
         else {
            result += '?';
         }
      }
''','''      case '&': result.append("&amp;"); continue;
      case '<': result.append("&lt;"); continue;
      case '>': result.append("&gt;"); continue;
      case '\\'': result.append("&apos;"); continue;
      case '"': result.append("&quot;"); continue;
      case '\\n': case '\\t': case '\\r': result.push_back(chr); continue;
      }
      const unsigned char code = static_cast<unsigned char>(chr);
      if(code < 0x20) {
         result.push_back('?');
      }
      else {
         result.push_back(chr);
      }
''')
V(FUTALL,'same',UTF,'''   std::string result;
   for(char chr: text) {
''','''   std::string result;
   result.reserve(text.size());
   for(std::string::size_type pos = 0; pos < text.length(); ++pos) {
      const char chr = text[pos];
''')
V(FUTALL,'same',UTF,'''   std::ofstream fout(p->xmlReport);
   if(! fout) {
      std::cerr << "Cannot save XML report to " << p->xmlReport;
      return;
   }

   fout << "<?xml version=\\"1.0\\" encoding=\\"utf-8\\"?>\\n";
''','''   std::ofstream fout;
   fout.open(p->xmlReport.c_str());
   if(! fout.is_open()) {
      std::cerr << "Cannot save XML report to " << p->xmlReport;
      return;
   }

   fout << "<?xml version=\\"1.0\\" encoding=\\"utf-8\\"?>" << std::endl;
''')
V(FUTALL,'same',UTF,'''   init();

   auto titer = p->testsByName.find(name);
   if(titer == p->testsByName.end()) {
      std::ostringstream ss;
      ss << "Test '" << name << "' not found";
      throw std::runtime_error(ss.str());
   }


   beginTest(1, titer->second);
   p->lapse.markBegin();
   titer->second->run();
   p->lapse.markEnd();
   endTest(1, titer->second);

   if (!hasPassed(titer->second))
   {
     p->status = -1;
     return -1;
   }

   return 0;
''','''   init();

   const auto titer = p->testsByName.find(name);
   if(titer == p->testsByName.end()) {
      throw std::runtime_error(std::string("Test '") + name + "' not found");
   }

   TestCase& tcase = *titer->second;
   beginTest(1, &tcase);
   p->lapse.markBegin();
   tcase.run();
   p->lapse.markEnd();
   endTest(1, &tcase);

   p->status = hasPassed(&tcase) ? 0 : -1;
   return p->status;
''')
V(FUTALL,'same',UTF,'''   std::string filename = exeName;
   auto pos = filename.rfind(FALCON_DIR_SEP_CHR);
   if(pos != std::string::npos) {
      filename = filename.substr(pos+1);
   }

   pos = filename.find(".");
   if(pos != std::string::npos) {
      filename = filename.substr(0, pos);
   }
''','''   std::string filename(exeName);
   filename.erase(0, filename.rfind(FALCON_DIR_SEP_CHR) + 1);
   const auto pos = filename.find('.');
   if(pos != std::string::npos) {
      filename.erase(pos);
   }
''')
V(FUTALL,'same',UTF,'''   p->tests.push_back(tcase);
   p->testsByName.insert(std::make_pair(tcase->fullName(), tcase));
   p->testsByComponent.insert(std::make_pair(tcase->componentName(), tcase));
''','''   p->testsByComponent.emplace(tcase->componentName(), tcase);
   p->testsByName.emplace(tcase->fullName(), tcase);
   p->tests.emplace_back(tcase);
''')
V(FUTALL,'same',UTF,'''   for(auto testIter: p->tests ) {
      testIter->init();
   }
''','''   for(std::vector<TestCase*>::iterator it = p->tests.begin(); it != p->tests.end(); ++it) {
      (*it)->init();
   }
''')
V(FUTALL,'same',UTF,'''   const bool performAll = testsToPerform.empty();
   if(performAll) {
      testsToPerform = p->tests;
   }
''','''   bool performAll = false;
   if(testsToPerform.size() == 0) {
      testsToPerform.assign(p->tests.begin(), p->tests.end());
      performAll = true;
   }
''')
V(FUTALL,'same',UTF,'''   std::ostringstream sname;
   sname << "[" << std::setw(3) << count << ": "
         << std::left << std::setw(p->screenWidth) << std::string(tname).substr(0, p->screenWidth);
''','''   std::string shown(tname);
   if(shown.length() > static_cast<std::string::size_type>(p->screenWidth)) {
      shown.resize(p->screenWidth);
   }
   std::ostringstream sname;
   sname << "[" << std::setw(3) << count << ": "
         << std::left << std::setw(p->screenWidth) << shown;
''')
