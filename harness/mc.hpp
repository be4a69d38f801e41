// Stateless exhaustive explorer: a driver asks for choices, the explorer enumerates every sequence of answers.
//  choose(n)   free choice (configuration, operation, operand): all n answers are explored
//  deviate(n)  environment answer: 0 is the default; other answers cost one deviation; explored up to maxdev
// A run is fully determined by its choice sequence, which is what a violation's replay artefact stores.
#pragma once
#include <algorithm>
#include <chrono>
#include <cinttypes>
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <sys/mman.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>

namespace mc {

struct Skip {};            // execution belongs to another shard / is outside the space
struct Prune {};           // rest of this execution is redundant
struct Violation { std::string key, msg; };

inline std::string fmt(const char* f, ...)
{
   char buf[4096];
   va_list ap;
   va_start(ap, f);
   vsnprintf(buf, sizeof buf, f, ap);
   va_end(ap);
   return buf;
}

inline std::string jstr(const std::string& s)
{
   std::string o = "\"";
   for( char c : s )
   {
      if( c == '"' || c == '\\' ) { o += '\\'; o += c; }
      else if( c == '\n' ) o += "\\n";
      else if( (unsigned char) c < 0x20 || (unsigned char) c >= 0x7f ) o += fmt("\\u%04x", (unsigned char) c);
      else o += c;
   }
   return o + "\"";
}

struct Hash
{
   uint64_t h = 1469598103934665603ull;
   void bytes(const void* p, size_t n)
   {
      const unsigned char* c = (const unsigned char*) p;
      for( size_t i = 0; i < n; ++i ) { h ^= c[i]; h *= 1099511628211ull; }
   }
   void i(long long v) { bytes(&v, sizeof v); }
   void d(double v) { if( v == 0 ) v = 0; bytes(&v, sizeof v); }
   void dr(double v, double res = 1e-6) { i((std::isfinite(v) && std::fabs(v) < 1e12) ? llround(v / res) : (std::isnan(v) ? -7777777 : (v > 0 ? 99999999 : -99999999))); }
   void s(const std::string& v) { bytes(v.data(), v.size()); i(-1); }
};

struct Shared { volatile uint64_t exec; volatile double start; volatile uint32_t n; volatile uint32_t done; int32_t ch[60000]; };

inline double now()
{
   return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}

class Explorer
{
public:
   struct Point { int n, c; bool dev; };
   std::vector<Point> trace;
   size_t pos = 0;
   int devs = 0, maxdev = 1;
   bool replaying = false, verbose = false, thorough = false;
   int shard = 0, nshards = 1;
   std::string mode;   // free-form part selector
   uint64_t shardCounter = 0;
   uint64_t evals = 0;
   std::unordered_set<uint64_t> outcomes;
   std::map<std::string, uint64_t> counters;
   std::vector<std::string> samples;
   std::map<std::string, int> seenViol;
   int nviol = 0;
   std::string desc;
   bool nontrivial = false;
   Shared* sh = nullptr;
   double deadline = 0;
   bool capped = false;
   std::set<std::string> pending_keys;

   int choose(int n) { return pick(n, false); }
   int deviate(int n) { return pick(n, true); }
   /** choose from list */
   template<class T> T of(std::initializer_list<T> l) { int k = choose((int) l.size()); return *(l.begin() + k); }

   int pick(int n, bool dev)
   {
      if( n <= 0 ) { fprintf(stderr, "mc: choice with no alternative\n"); _exit(97); }
      int c;
      if( pos < trace.size() )
      {
         if( trace[pos].n != n || trace[pos].dev != dev )
         {
            if( !(replaying && trace[pos].n < 0) )
            {
               fprintf(stderr, "mc: divergence while replaying a prefix at choice %zu: %d alternatives, were %d\n%s\n", pos, n, trace[pos].n, desc.c_str());
               diverged();
            }
            trace[pos].n = n;
            trace[pos].dev = dev;
         }
         c = trace[pos].c;
         if( c >= n ) { fprintf(stderr, "mc: choice out of range\n"); _exit(97); }
      }
      else
      {
         c = 0;
         trace.push_back(Point{n, 0, dev});
         ++counters["transitions"];
      }
      if( dev && c ) ++devs;
      if( sh && pos < 60000 ) { sh->ch[pos] = c; sh->n = (uint32_t)(pos + 1); }
      ++pos;
      return c;
   }
   void diverged()
   {
      // nondeterminism of the code under test: reported as such by the runner (never silently ignored)
      printf("MCVIOL {\"key\": \"nondeterminism\", \"choices\": %s, \"msg\": \"replaying the same choices led to a different execution\"}\n", choicesJson().c_str());
      fflush(stdout);
      _exit(96);
   }
   /** All configuration choices made so far define the unit of distribution over shards. */
   void shardPoint()
   {
      if( replaying ) return;
      // count each distinct prefix once
      if( shardPos != (long) pos || shardPrefixChanged() )
      {
         lastPrefix.clear();
         for( size_t i = 0; i < pos; ++i ) lastPrefix.push_back(trace[i].c);
         shardPos = (long) pos;
         ++shardCounter;
      }
      if( (int) ((shardCounter * 2654435761u >> 7) % nshards) != shard ) throw Skip();
   }
   void fail(const std::string& key, const std::string& msg) { throw Violation{key, msg}; }
   /** report, but go on with this execution */
   void report(const std::string& key, const std::string& msg)
   {
      if( verbose ) { fprintf(stderr, "VIOL %s: %s\n", key.c_str(), msg.c_str()); }
      ++nviol;
      anyViolThisRun = true;
      if( seenViol[key]++ < 3 && seenViol.size() < 60 )
      {
         printf("MCVIOL {\"key\": %s, \"choices\": %s, \"msg\": %s}\n", jstr(key).c_str(), choicesJson().c_str(), jstr(msg + "  [" + desc + "]").c_str());
         fflush(stdout);
      }
   }
   void outcome(uint64_t h) { outcomes.insert(h); }
   void count(const std::string& k, uint64_t n = 1) { counters[k] += n; }

   std::string choicesJson() const
   {
      std::string s = "[";
      size_t n = pos;
      for( size_t i = 0; i < n && i < trace.size(); ++i ) s += (i ? "," : "") + std::to_string(trace[i].c);
      return s + "]";
   }

   /** advances to next sequence; false if exhausted */
   bool next()
   {
      // drop points not reached in the last execution
      trace.resize(pos < trace.size() ? pos : trace.size());
      while( !trace.empty() )
      {
         Point& p = trace.back();
         bool ok = p.c + 1 < p.n;
         if( ok && p.dev )
         {
            int d = 0;
            for( size_t i = 0; i + 1 < trace.size(); ++i ) if( trace[i].dev && trace[i].c ) ++d;
            ok = d < maxdev;
         }
         if( ok ) { ++p.c; ++counters["transitions"]; return true; }
         trace.pop_back();
      }
      return false;
   }

   int main(int argc, char** argv, std::function<void(Explorer&)> body)
   {
      std::string out, shm;
      double limit = 0;
      for( int i = 1; i < argc; ++i )
      {
         std::string a = argv[i];
         auto val = [&]() -> std::string { if( i + 1 >= argc ) _exit(98); return argv[++i]; };
         if( a == "--shard" ) { std::string v = val(); sscanf(v.c_str(), "%d/%d", &shard, &nshards); }
         else if( a == "--tier" ) thorough = val() == "thorough";
         else if( a == "--maxdev" ) maxdev = atoi(val().c_str());
         else if( a == "--mode" ) mode = val();
         else if( a == "--out" ) out = val();
         else if( a == "--shm" ) shm = val();
         else if( a == "--limit" ) limit = atof(val().c_str());
         else if( a == "--verbose" ) verbose = true;
         else if( a == "--replay" )
         {
            replaying = true;
            std::string v = val();
            const char* p = v.c_str();
            while( *p )
            {
               char* e;
               long c = strtol(p, &e, 10);
               if( e == p ) break;
               trace.push_back(Point{-1, (int) c, false});
               p = *e == ',' ? e + 1 : e;
            }
         }
         else { fprintf(stderr, "mc: unknown argument %s\n", a.c_str()); return 98; }
      }
      if( !shm.empty() )
      {
         int fd = open(shm.c_str(), O_RDWR | O_CREAT, 0600);
         if( fd < 0 || ftruncate(fd, sizeof(Shared)) ) return 98;
         sh = (Shared*) mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
         close(fd);
      }
      if( limit > 0 ) deadline = now() + limit;
      if( replaying ) maxdev = 1000000;
      for( ;; )
      {
         pos = 0;
         devs = 0;
         desc.clear();
         nontrivial = false;
         anyViolThisRun = false;
         if( sh ) { sh->n = 0; sh->start = now(); sh->exec = evals + 1; }
         bool counted = true;
         try { body(*this); }
         catch( Skip& ) { counted = false; }
         catch( Prune& ) { }
         catch( Violation& v ) { report(v.key, v.msg); }
         if( counted )
         {
            ++evals;
            if( samples.size() < 4 && !desc.empty() && (evals == 1 || evals % 37 == 0) ) samples.push_back(desc);
         }
         if( replaying )
         {
            printf("MCREPLAY %s\n", anyViolThisRun ? "violation" : "ok");
            if( !desc.empty() ) printf("desc: %s\n", desc.c_str());
            fflush(stdout);
            return anyViolThisRun ? 1 : 0;
         }
         if( nviol >= 200 ) { capped = true; break; }
         if( deadline > 0 && now() > deadline ) { capped = true; break; }
         if( !next() ) break;
      }
      if( sh ) { sh->done = 1; }
      if( !out.empty() )
      {
         FILE* f = fopen(out.c_str(), "wb");
         for( uint64_t h : outcomes ) fwrite(&h, sizeof h, 1, f);
         fclose(f);
      }
      std::string c = "{";
      for( auto& kv : counters ) c += (c.size() > 1 ? ", " : "") + jstr(kv.first) + ": " + std::to_string(kv.second);
      c += "}";
      std::string sm = "[";
      for( auto& s : samples ) sm += (sm.size() > 1 ? ", " : "") + jstr(s);
      sm += "]";
      printf("MCSTAT {\"evals\": %" PRIu64 ", \"capped\": %s, \"counters\": %s, \"samples\": %s}\n", evals, capped ? "true" : "false", c.c_str(), sm.c_str());
      fflush(stdout);
      return 0;
   }

private:
   long shardPos = -1;
   std::vector<int> lastPrefix;
   bool anyViolThisRun = false;
   bool shardPrefixChanged()
   {
      if( lastPrefix.size() != pos ) return true;
      for( size_t i = 0; i < pos; ++i ) if( lastPrefix[i] != trace[i].c ) return true;
      return false;
   }
};

} // namespace mc
