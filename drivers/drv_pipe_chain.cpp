// Processors applied to lattices by name.
#include "latops.hpp"
#include "main_factories_keeper.hpp"
#include "pipe_runner.hpp"
#include "lattice_reader.hpp"
#include "lattice_writer.hpp"
#include "annotator.hpp"
#include "annotator_factory.hpp"
#include "split_pipeline.hpp"
#include "object_cache.hpp"
#include <boost/program_options.hpp>
#include <boost/scoped_array.hpp>
namespace {
typedef boost::shared_ptr<Processor> Proc;
std::map<std::string, Proc> cache;
Proc makeProc(const std::string& name, const std::list<std::string>& args) {
    ProcessorFactory& f = MainFactoriesKeeper::getInstance().getProcessorFactory(name);
    std::vector<char*> argv(1, (char*)"x");
    for (auto& s : args) argv.push_back(const_cast<char*>(s.c_str()));
    boost::program_options::options_description d = f.optionsHandled();
    boost::program_options::variables_map vm;
    boost::program_options::store(boost::program_options::parse_command_line((int)argv.size(), argv.data(), d), vm);
    boost::program_options::notify(vm);
    return Proc(f.createProcessor(vm));
}
// cached unless the name starts with '='
Proc getProc(std::string name, const std::list<std::string>& args) {
    if (name[0] == '=') return makeProc(name.substr(1), args);
    std::string k = name;
    for (auto& a : args) { k += '\0'; k += a; }
    auto i = cache.find(k);
    if (i == cache.end()) i = cache.insert(std::make_pair(k, makeProc(name, args))).first;
    return i->second;
}
}
// [text, [stage]] -> [result per stage]
VCMD(chain) {
    std::unique_ptr<Sess> s(new Sess(a[0].s()));
    o.open();
    for (size_t i = 0; i < a[1].size(); ++i) {
        const Val& st = a[1][i];
        const std::string& n = st[0].s();
        guarded(o, [&] {
            if (n == "read") {       // name args input
                Proc p = getProc(st[1].s(), strList(st[2]));
                LatticeReader<std::istream>* r = dynamic_cast<LatticeReader<std::istream>*>(p.get());
                if (!r) throw drv::BadRequest("not a reader");
                std::istringstream in(st[3].s());
                r->readIntoLattice(in, s->l);
                o.n();
            } else if (n == "write") {
                Proc p = getProc(st[1].s(), strList(st[2]));
                LatticeWriter<std::ostream>* w = dynamic_cast<LatticeWriter<std::ostream>*>(p.get());
                if (!w) throw drv::BadRequest("not a writer");
                std::ostringstream out;
                w->writeLattice(s->l, out);
                o.s(out.str());
            } else if (n == "ann") {
                Proc p = getProc(st[1].s(), strList(st[2]));
                Annotator* w = dynamic_cast<Annotator*>(p.get());
                if (!w) throw drv::BadRequest("not an annotator");
                w->annotate(s->l);
                o.n();
            } else if (n == "reread") {     // writer args reader args: continue with the lattice read back
                Proc p = getProc(st[1].s(), strList(st[2]));
                LatticeWriter<std::ostream>* w = dynamic_cast<LatticeWriter<std::ostream>*>(p.get());
                std::ostringstream out;
                w->writeLattice(s->l, out);
                Proc q = getProc(st[3].s(), strList(st[4]));
                LatticeReader<std::istream>* r = dynamic_cast<LatticeReader<std::istream>*>(q.get());
                std::istringstream in(out.str());
                s.reset(new Sess(""));
                r->readIntoLattice(in, s->l);
                o.s(out.str());
            } else if (n == "new") { s.reset(new Sess(st[1].s())); o.n(); }
            else if (n == "ops") {
                o.open();
                for (size_t k = 0; k < st[1].size(); ++k) guarded(o, [&] { runOp(*s, st[1][k], o); });
                o.close();
            } else if (n == "dump") outLattice(s->l, o);
            else if (n == "dumpi") outLatticeIdx(s->l, o);
            else throw drv::BadRequest("stage " + n);
        });
    }
    o.close();
}
// [pipeline, [input...], mode] -> [output...]; every run by one PipeRunner
VCMD(pipe) {
    o.open();
    std::unique_ptr<PipeRunner> r;
    guarded(o, [&] {
        if (a[0].t == Val::L) { auto l = strList(a[0]); r.reset(new PipeRunner(std::vector<std::string>(l.begin(), l.end()))); }
        else r.reset(new PipeRunner(a[0].s()));
        o.n();
    });
    if (r.get()) for (size_t i = 0; i < a[1].size(); ++i)
        guarded(o, [&] {
            std::ostringstream out;
            if (a[2].s() == "stream") { std::istringstream in(a[1][i].s()); r->run(in, out); o.s(out.str()); }
            else if (a[2].s() == "line") { r->runLine(a[1][i].s(), out); o.s(out.str()); }
            else o.s(r->run(a[1][i].s()));
        });
    o.close();
}
VCMD(forget) { cache.clear(); ObjectCache::getInstance().clear(); o.n(); }
VCMD(procs) {
    o.open();
    for (auto& n : MainFactoriesKeeper::getInstance().getProcessorNames()) {
        ProcessorFactory& f = MainFactoriesKeeper::getInstance().getProcessorFactory(n);
        AnnotatorFactory* af = dynamic_cast<AnnotatorFactory*>(&f);
        o.open().s(n).b(af != 0).close();
    }
    o.close();
}
VCMD(resolve) {
    guarded(o, [&] { o.open(); for (auto f : MainFactoriesKeeper::getInstance().getProcessorFactoriesForName(a[0].s())) o.s(f->getName()); o.close(); });
}
static PipeRunner* makeRunner(const Val& p) {
    if (p.t != Val::L) return new PipeRunner(p.s());
    auto l = strList(p);
    if (!l.empty() && l.front() == "psi-pipe") {
        std::vector<char*> argv;
        for (auto& s : l) argv.push_back(const_cast<char*>(s.c_str()));
        argv.push_back(0);
        return new PipeRunner((int)l.size(), argv.data());
    }
    return new PipeRunner(std::vector<std::string>(l.begin(), l.end()));
}
// pipeline -> [information only, [[name, required, provided, annotator, languages handling, languages]]]
VCMD(plan) {
    guarded(o, [&] {
        std::unique_ptr<PipeRunner> r(makeRunner(a[0]));
        o.open().b(r->justInformation_).open();
        for (auto& p : r->finalPipeline_) {
            o.open().s(p->getName()).open();
            for (auto& l : p->requiredLayerTags()) { o.open(); for (auto& t : l) o.s(t); o.close(); }
            o.close().open();
            for (auto& t : p->providedLayerTags()) o.s(t);
            o.close().b(p->isAnnotator()).i(p->languagesHandling()).open();
            for (auto& t : p->languagesHandled()) o.s(t);
            o.close().close();
        }
        o.close().close();
    });
}
// [[pipeline...], [[runner, mode, input]...]] -> [output...]: runners made first, then used in the given order
VCMD(runs) {
    std::vector<std::unique_ptr<PipeRunner> > rs;
    o.open();
    for (size_t i = 0; i < a[0].size(); ++i)
        guarded(o, [&] { rs.push_back(nullptr); rs.back().reset(makeRunner(a[0][i])); o.n(); });
    for (size_t i = 0; i < a[1].size(); ++i)
        guarded(o, [&] {
            PipeRunner* r = rs.at(a[1][i][0].i()).get();
            if (!r) { o.n(); return; }
            std::ostringstream out;
            const std::string& m = a[1][i][1].s();
            if (m == "stream") { std::istringstream in(a[1][i][2].s()); r->run(in, out); o.s(out.str()); }
            else if (m == "line") { r->runLine(a[1][i][2].s(), out); o.s(out.str()); }
            else o.s(r->run(a[1][i][2].s()));
        });
    o.close();
}
