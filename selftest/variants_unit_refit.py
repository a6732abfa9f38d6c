# ---- refactorings of the unit test framework: same behaviour
UTH = 'include/falcon/fut/unittest.h'
V(FUTALL,'same',UTF,'''      for(auto tcase: component.tests ) {
         beginTest(++count, tcase);
         tcase->run();
         endTest(count, tcase);

         if (!hasPassed(tcase))
         {
            p->status = -1;
            p->failedCount++;
            component.failures++;
         }
      }
''','''      for(auto tcase: component.tests ) {
         if(!runTest(++count, tcase)) {
            ++component.failures;
         }
      }
''',UTF,'''void UnitTest::beginTest(int count, TestCase* tc)
{''','''bool UnitTest::runTest(int count, TestCase* tc)
{
   beginTest(count, tc);
   tc->run();
   endTest(count, tc);
   if(hasPassed(tc)) {
      return true;
   }
   p->status = -1;
   ++p->failedCount;
   return false;
}

void UnitTest::beginTest(int count, TestCase* tc)
{''',UTH,'   void beginTest(int count, TestCase* tc);','   bool runTest(int count, TestCase* tc);\n   void beginTest(int count, TestCase* tc);')
V(FUTALL,'same',UTF,'''   return ! ((tcase->status() == TestCase::OUT_ON_ERROR_STREAM && p->opt_erroutIsFail)
            || tcase->status() != TestCase::SUCCESS);''','''   return tcase->status() == TestCase::SUCCESS;''')
V(FUTALL,'same',UTF,'''         bool first = true;
         for(auto tcase: p->testsToPerofm ) {
            if (!hasPassed(tcase))
            {
               if(first) {
                  std::cout << "\\n======================================================================"
                     << "\\nFailed cases: ";
                  first = false;
               }
               else {
                  std::cout << ", ";
               }
               std::cout << tcase->fullName();
            }
         }
         if(!first) {
            std::cout << "\\n======================================================================\\n";
         }
''','''         std::string names;
         for(auto tcase: p->testsToPerofm ) {
            if (hasPassed(tcase)) {
               continue;
            }
            if(!names.empty()) {
               names += ", ";
            }
            names += tcase->fullName();
         }
         if(!names.empty()) {
            std::cout << "\\n======================================================================"
                     << "\\nFailed cases: " << names
                     << "\\n======================================================================\\n";
         }
''')
V(FUTALL,'same',UTF,'''      for(auto tcasep: component.tests) {
         fout << "<testcase id''','''      for(TestCase* const tcasep: component.tests) {
         const bool failed = !hasPassed(tcasep);
         fout << "<testcase id''',UTF,'''         if(!hasPassed(tcasep)) {
            fout << "<failure''','''         if(failed) {
            fout << "<failure''')
V(FUTALL,'same',UTF,'''   std::ofstream fout(p->xmlReport);
   if(! fout) {''','''   std::ofstream fout;
   fout.open(p->xmlReport.c_str());
   if(!fout.is_open()) {''')
V(FUTALL,'same',TCF,'''   try {
      p->status = NONE;
      SetUp();

      p->lapse.markBegin();
      try {
         test();
      }
      catch(...) {
         p->lapse.markEnd();
         // the test has been set up: tear it down, but report its own error.
         try { TearDown(); } catch(...) {}
         throw;
      }
      p->lapse.markEnd();

      if(p->status == NONE) {
         p->status = p->errCapture.str().empty() ? SUCCESS : OUT_ON_ERROR_STREAM;
      }
      TearDown();
   }
''','''   p->status = NONE;
   try {
      SetUp();

      bool done = false;
      p->lapse.markBegin();
      try {
         test();
         done = true;
         p->lapse.markEnd();
      }
      catch(...) {
         if(!done) {
            p->lapse.markEnd();
         }
         try {
            TearDown();
         }
         catch(...) {
         }
         throw;
      }

      if(p->status == NONE) {
         const bool quiet = p->errCapture.str().empty();
         p->status = quiet ? SUCCESS : OUT_ON_ERROR_STREAM;
      }
      TearDown();
   }
''')
V(FUTALL,'same',TCF,'''   p->failDesc = expected;
   if(*actual) {
      p->failDesc += " (Actually \\"";
      p->failDesc += actual;
      p->failDesc += "\\")";
   }

   p->failLine = line;
   p->failFile = fname;
   //strip path
   std::string::size_type pos = p->failFile.rfind(FALCON_DIR_SEP_CHR);
   if(pos != std::string::npos) {
      p->failFile = p->failFile.substr(pos+1);
   }
   p->status = FAIL;
''','''   std::string desc(expected);
   if(*actual != 0) {
      desc.append(" (Actually \\"").append(actual).append("\\")");
   }

   //strip path
   const std::string path(fname);
   const auto pos = path.rfind(FALCON_DIR_SEP_CHR);
   const std::string name = pos == std::string::npos ? path : path.substr(pos + 1);
   fail(name.c_str(), line, desc.c_str());
''')
V(FUTALL,'same',TCF,'''   p->componentName = component;
   p->caseName = caseName;
   p->name = p->componentName + "::" + p->caseName;
''','''   const std::string full = std::string(component) + "::" + caseName;
   p->caseName.assign(caseName);
   p->componentName.assign(component);
   p->name = full;
''')
V(FUTALL,'same',UTF,'''   std::string filename = exeName;
   auto pos = filename.rfind(FALCON_DIR_SEP_CHR);
   if(pos != std::string::npos) {
      filename = filename.substr(pos+1);
   }

   pos = filename.find(".");
   if(pos != std::string::npos) {
      filename = filename.substr(0, pos);
   }

   p->unitTestId = p->unitTestName = filename;
''','''   std::string filename(exeName);
   const auto sep = filename.rfind(FALCON_DIR_SEP_CHR);
   if(sep != std::string::npos) {
      filename.erase(0, sep + 1);
   }

   const auto dot = filename.find('.');
   if(dot != std::string::npos) {
      filename.erase(dot);
   }

   p->unitTestName = filename;
   p->unitTestId = filename;
''')
V(FUTALL,'same',UTF,'''      // the tests of a component are performed in the order of their names
      auto& tests = component->tests;
      tests.insert(std::upper_bound(tests.begin(), tests.end(), tcase,
            [](const TestCase* first, const TestCase* second) {
               return std::string(first->caseName()) < second->caseName(); }),
         tcase);
''','''      // the tests of a component are performed in the order of their names
      auto& tests = component->tests;
      auto place = tests.begin();
      while(place != tests.end() && std::string((*place)->caseName()).compare(tcase->caseName()) <= 0) {
         ++place;
      }
      tests.insert(place, tcase);
''')
V(FUTALL,'same',UTF,'''   beginTest(1, titer->second);
   p->lapse.markBegin();
   titer->second->run();
   p->lapse.markEnd();
   endTest(1, titer->second);

   if (!hasPassed(titer->second))
   {
     p->status = -1;
     return -1;
   }

   return 0;
''','''   TestCase* const tcase = titer->second;
   beginTest(1, tcase);
   p->lapse.markBegin();
   tcase->run();
   p->lapse.markEnd();
   endTest(1, tcase);

   p->status = hasPassed(tcase) ? 0 : -1;
   return p->status;
''')
V(FUTALL,'same',UTF,'''         std::istringstream is(argv[i]);
         int level;
         if(is >> level && level >= SILENT && level <= REPORT_STDOUT) {
            setVerbosity(static_cast<t_verbosity>(level));
            continue;
         }
''','''         int level = -1;
         std::istringstream is{std::string(argv[i])};
         is >> level;
         const bool valid = !is.fail() && level >= SILENT && level <= REPORT_STDOUT;
         if(valid) {
            setVerbosity(t_verbosity(level));
            continue;
         }
''')
V(FUTALL,'same',UTF,'''      if(opt == "-q") {
         setVerbosity(SILENT);
         continue;
      }
      else if(opt == "-c") {
         p->m_capture = false;
         continue;
      }
      else if(opt == "-e") {
         p->opt_erroutIsFail = true;
         continue;
      }
      else if(opt == "-v" &&''','''      if(opt == "-c") {
         p->m_capture = false;
         continue;
      }
      if(opt == "-e") {
         p->opt_erroutIsFail = true;
         continue;
      }
      if(opt == "-q") {
         setVerbosity(SILENT);
         continue;
      }
      if(opt == "-v" &&''')
V(FUTALL,'same',UTF,'''   int status = 0;
   if (argc > 0)
   {
      detectTestName(argv[0]);
      status = parseParams(argc-1, argv+1);
   }

   if(!status) {
      status = performUnitTests();
      destroy();
   }

   delete this;
   return status;
''','''   int status = 0;
   if (argc > 0)
   {
      detectTestName(*argv);
      status = parseParams(argc - 1, &argv[1]);
   }

   if(status != 0) {
      delete this;
      return status;
   }

   status = performUnitTests();
   destroy();
   delete this;
   return status;
''')
V(FUTALL,'same',UTF,'''   if( elapsed >= 0.0 ) {
      std::ostringstream secs;
      secs << std::fixed << std::setprecision(3)  << elapsed << "s";
      sname << std::setw(10) << secs.str();
   }
   else {
      sname << std::fixed << std::setw(10) << elapsed;
   }
   sname << std::setw(0)''','''   const bool timed = elapsed >= 0.0;
   if(!timed) {
      sname << std::fixed << std::setw(10) << elapsed;
   }
   else {
      std::ostringstream secs;
      secs.precision(3);
      secs << std::fixed << elapsed << 's';
      sname << std::setw(10) << secs.str();
   }
   sname << std::setw(0)''')
