static std::string jstr(const std::string &s)
{
    std::string r = "\"";
    for (unsigned char c : s)
    {
        if (c == '"' || c == '\\') r += '\\', r += c;
        else if (c == '\n') r += "\\n";
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += c;
    }
    return r + "\"";
}

static std::string resultJson(Interp &I, const std::string &entry, const std::string &error, double secs)
{
    std::string j = "{\"entry\":" + jstr(entry) + ",\"error\":" + jstr(error) + ",\"partitions\":" + std::to_string(I.partitions) + ",\"steps\":" + std::to_string(I.steps) +
                    ",\"joins\":" + std::to_string(I.joins) + ",\"ended\":" + std::to_string(I.ended) + ",\"cpu_s\":" + std::to_string(secs);
    j += ",\"violations\":[";
    bool first = true;
    for (auto &v : I.viol)
    {
        if (!first) j += ",";
        first = false;
        j += "{\"msg\":" + jstr(v.msg) + ",\"site\":" + jstr(v.site) + ",\"where\":" + jstr(v.where) + ",\"trace\":" + jstr(v.trace) + ",\"facts\":" + jstr(v.facts) + "}";
    }
    j += "],\"covers\":{";
    first = true;
    for (auto &c : I.covers) { if (!first) j += ","; first = false; j += jstr(c.first) + ":" + std::to_string(c.second); }
    j += "},\"asserts\":{";
    first = true;
    for (auto &c : I.asserts) { if (!first) j += ","; first = false; j += jstr(c.first) + ":" + std::to_string(c.second); }
    j += "},\"functions\":[";
    first = true;
    for (auto &c : I.fns)
        if (c.second && c.second->subject) { if (!first) j += ","; first = false; j += jstr(c.second->dem); }
    j += "]}\n";
    return j;
}
int main(int argc, char **argv)
{
    std::string bc, out;
    std::vector<std::string> entries;
    Interp I;
    int jobs = 1;
    long cpu = 600;
    for (int i = 1; i < argc; i++)
    {
        std::string a = argv[i];
        if (a == "--out") out = argv[++i];
        else if (a == "--jobs") jobs = atoi(argv[++i]);
        else if (a == "--cpu") cpu = atol(argv[++i]);
        else if (a == "--deadline") I.deadline = atoll(argv[++i]);
        else if (a == "--max-states") I.maxParts = atoll(argv[++i]);
        else if (a == "--max-steps") I.maxSteps = atoll(argv[++i]);
        else if (a == "--path-limit") I.pathLimit = atoll(argv[++i]);
        else if (a == "--max-viol") I.maxViol = atoll(argv[++i]);
        else if (a == "--debug") I.debug = true;
        else if (bc.empty()) bc = a;
        else entries.push_back(a);
    }
    SMDiagnostic err;
    M = parseIRFile(bc, err, Ctx);
    if (!M) { err.print("spbai", errs()); return 2; }
    DL = &M->getDataLayout();
    // a driver that declares it calls the constructors of global objects
    if (auto *f = M->getFunction("__ai_global_ctors"); f && f->isDeclaration())
    {
        IRBuilder<> b(BasicBlock::Create(Ctx, "", f));
        std::vector<std::pair<uint64_t, Function *>> cs;
        if (auto *g = M->getGlobalVariable("llvm.global_ctors"); g && g->hasInitializer())
            if (auto *a = dyn_cast<ConstantArray>(g->getInitializer()))
                for (auto &o : a->operands())
                    if (auto *c = dyn_cast<ConstantStruct>(o))
                        if (auto *fn = dyn_cast<Function>(c->getOperand(1)->stripPointerCasts()))
                            cs.push_back({cast<ConstantInt>(c->getOperand(0))->getZExtValue(), fn});
        std::stable_sort(cs.begin(), cs.end(), [](auto &x, auto &y) { return x.first < y.first; });
        for (auto &c : cs) b.CreateCall(c.second);
        b.CreateRetVoid();
    }
    {
        PassBuilder PB;
        LoopAnalysisManager LAM;
        FunctionAnalysisManager FAM;
        CGSCCAnalysisManager CGAM;
        ModuleAnalysisManager MAM;
        PB.registerModuleAnalyses(MAM);
        PB.registerCGSCCAnalyses(CGAM);
        PB.registerFunctionAnalyses(FAM);
        PB.registerLoopAnalyses(LAM);
        PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
        ModulePassManager MPM;
        if (auto e = PB.parsePassPipeline(MPM, "function(lower-expect,sroa,early-cse,simplifycfg,adce)")) { errs() << toString(std::move(e)); return 2; }
        MPM.run(*M, MAM);
    }
    if (entries.empty())
        for (auto &f : *M)
            if (!f.isDeclaration() && f.getName().startswith("ai_")) entries.push_back(f.getName().str());
    try { I.initStatics(); } catch (Unsupported &u) { fprintf(stderr, "spbai: statics: %s\n", u.what.c_str()); return 2; }
    // one process per entry, a line of JSON each
    std::map<pid_t, int> run; // pid -> entry
    std::vector<std::string> res(entries.size());
    size_t next = 0;
    std::vector<std::string> tmp(entries.size());
    for (size_t i = 0; i < entries.size(); i++) tmp[i] = (out.empty() ? "/tmp/spbai." + std::to_string(getpid()) : out) + "." + std::to_string(i);
    int worst = 0;
    while (next < entries.size() || !run.empty())
    {
        while (next < entries.size() && (int)run.size() < jobs)
        {
            size_t k = next++;
            fflush(stdout);
            pid_t p = fork();
            if (p == 0)
            {
                struct rlimit rl{(rlim_t)cpu + 20, (rlim_t)cpu + 25};
                setrlimit(RLIMIT_CPU, &rl);
                struct rlimit rm{6ull << 30, 6ull << 30};
                setrlimit(RLIMIT_AS, &rm);
                std::string error;
                auto *f = M->getFunction(entries[k]);
                if (!f || f->isDeclaration()) error = "entry " + entries[k] + " not found";
                I.entry = entries[k];
                double t0 = clock();
                I.cpuEnd = clock() + cpu * CLOCKS_PER_SEC;
                if (error.empty())
                {
                    try { I.run(f); }
                    catch (Unsupported &u) { error = u.what; }
                    catch (std::bad_alloc &) { error = "out of memory"; }
                }
                std::string j = resultJson(I, entries[k], error, (clock() - t0) / CLOCKS_PER_SEC);
                FILE *fo = fopen(tmp[k].c_str(), "w");
                fputs(j.c_str(), fo);
                fclose(fo);
                _exit(!I.viol.empty() ? 1 : error.empty() ? 0 : 2);
            }
            run[p] = k;
        }
        int st = 0;
        pid_t p = wait(&st);
        if (p < 0) break;
        auto it = run.find(p);
        if (it == run.end()) continue;
        int k = it->second;
        run.erase(it);
        if (!WIFEXITED(st))
            res[k] = "{\"entry\":" + jstr(entries[k]) + ",\"error\":\"analysis ended by signal " + std::to_string(WTERMSIG(st)) + "\",\"partitions\":0,\"steps\":0,\"joins\":0,\"ended\":0,\"cpu_s\":0,\"violations\":[],\"covers\":{},\"asserts\":{},\"functions\":[]}\n";
        else
        {
            FILE *fi = fopen(tmp[k].c_str(), "r");
            char buf[65536];
            size_t n;
            while (fi && (n = fread(buf, 1, sizeof buf, fi)) > 0) res[k].append(buf, n);
            if (fi) fclose(fi);
        }
        unlink(tmp[k].c_str());
        int rc = WIFEXITED(st) ? WEXITSTATUS(st) : 2;
        if (rc == 2 || worst == 0) worst = rc ? rc : worst;
    }
    FILE *fo = out.empty() ? stdout : fopen(out.c_str(), "w");
    for (auto &r : res) fputs(r.c_str(), fo);
    fflush(fo);
    _exit(worst);
}
