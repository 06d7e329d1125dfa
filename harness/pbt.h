// A property-based testing engine: choice-sequence generation, process isolation,
// choice-sequence shrinking, confirmed replay, and evidence.
//
// A case is a pure function of a sequence of integers ("choices"). Random
// generation draws them from a generator seeded with (VERIF_SEED, case index);
// a replay file lists them. Shrinking edits the sequence (delete spans, zero
// spans, lower single values) and keeps what still fails, so every generator
// built on `Source` shrinks and replays as one value. Lower choices mean simpler
// values everywhere.
#pragma once

#include <algorithm>
#include <array>
#include <atomic>
#include <chrono>
#include <cinttypes>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <exception>
#include <fstream>
#include <functional>
#include <iomanip>
#include <iostream>
#include <map>
#include <optional>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <string_view>
#include <vector>

#include <dirent.h>
#include <fcntl.h>
#include <poll.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

namespace pbt
{
   using u64 = std::uint64_t;
   using i64 = std::int64_t;

   // thrown by an oracle
   struct Failure : std::runtime_error { using std::runtime_error::runtime_error; };

   template< typename... Ts>
   std::string cat( const Ts&... ts)
   {
      std::ostringstream out;
      ( out << ... << ts);
      return out.str();
   }

   template< typename... Ts>
   [[noreturn]] void fail( const Ts&... ts) { throw Failure{ cat( ts...)};}

   template< typename... Ts>
   void require( bool condition, const Ts&... ts) { if( ! condition) fail( ts...);}

   // printable version of arbitrary bytes
   inline std::string show( std::string_view value, std::size_t max = 60)
   {
      std::ostringstream out;
      out << '"';
      for( std::size_t index = 0; index < value.size() && index < max; ++index)
      {
         unsigned char c = value[ index];
         if( c == '"' || c == '\\')
            out << '\\' << c;
         else if( c >= 32 && c < 127)
            out << c;
         else
            out << "\\x" << std::hex << std::setw( 2) << std::setfill( '0') << int( c) << std::dec;
      }
      out << '"';
      if( value.size() > max)
         out << "...(" << value.size() << ")";
      return out.str();
   }

   inline u64 mix( u64 value)
   {
      value += 0x9e3779b97f4a7c15ull;
      value = ( value ^ ( value >> 30)) * 0xbf58476d1ce4e5b9ull;
      value = ( value ^ ( value >> 27)) * 0x94d049bb133111ebull;
      return value ^ ( value >> 31);
   }

   inline u64 hash( std::string_view text)
   {
      u64 result = 0xcbf29ce484222325ull;
      for( unsigned char c : text)
         result = ( result ^ c) * 0x100000001b3ull;
      return mix( result);
   }

   struct Span { std::size_t begin, end; };

   class Source
   {
   public:
      explicit Source( u64 seed) : m_state{ seed}, m_random{ true} {}
      explicit Source( std::vector< u64> replay) : m_replay{ std::move( replay)}, m_random{ false} {}

      //! a value in [0, bound); bound == 0 is the whole 64 bit range
      u64 draw( u64 bound)
      {
         u64 value = 0;
         if( m_random)
         {
            m_state += 0x9e3779b97f4a7c15ull;
            value = mix( m_state);
            if( bound)
               value = u64( ( static_cast< unsigned __int128>( value) * bound) >> 64);
         }
         else if( m_choices.size() < m_replay.size())
         {
            value = m_replay[ m_choices.size()];
            if( bound && value >= bound)
               value = bound - 1;
         }
         m_choices.push_back( value);
         if( sink && m_choices.size() < sink_size)
         {
            sink[ m_choices.size()] = value;
            sink[ 0] = m_choices.size();
         }
         return value;
      }

      //! lo..hi inclusive, uniform
      i64 uniform( i64 lo, i64 hi) { return lo + i64( draw( u64( hi - lo) + 1));}

      //! lo..hi inclusive; mostly small offsets from lo, some anywhere, some at the top
      i64 integer( i64 lo, i64 hi)
      {
         const u64 range = u64( hi) - u64( lo);
         switch( draw( 8))
         {
            case 0: case 1: case 2: case 3: return i64( u64( lo) + draw( std::min< u64>( range, 8) + 1));
            case 4: case 5: return i64( u64( lo) + draw( std::min< u64>( range, 300) + 1));
            case 6: return i64( u64( hi) - draw( std::min< u64>( range, 3) + 1));
            default: return i64( u64( lo) + ( range == ~u64{} ? draw( 0) : draw( range + 1)));
         }
      }

      //! true with probability percent / 100
      bool chance( unsigned percent) { return draw( 100) >= 100 - percent;}
      bool boolean() { return draw( 2) == 1;}

      template< typename T>
      const T& pick( const std::vector< T>& values) { return values[ draw( values.size())];}

      template< typename T>
      T pick( std::initializer_list< T> values) { return *( values.begin() + draw( values.size()));}

      //! index according to weights
      std::size_t weighted( std::initializer_list< unsigned> weights)
      {
         u64 total = 0;
         for( auto w : weights) total += w;
         auto value = draw( total);
         std::size_t index = 0;
         for( auto w : weights)
         {
            if( value < w)
               return index;
            value -= w;
            ++index;
         }
         return 0;
      }

      //! invokes `f` between min and max times, `average` (about) in the mean. Every element
      //! is a span that can be shrunk away.
      template< typename F>
      std::size_t repeat( std::size_t min, std::size_t max, std::size_t average, F&& f)
      {
         std::size_t count = 0;
         for( ; count < max; ++count)
         {
            const auto begin = m_choices.size();
            if( draw( average + 1) == 0 && count >= min)
               break;
            f( count);
            m_spans.push_back( Span{ begin, m_choices.size()});
         }
         return count;
      }

      template< typename F>
      auto vector( std::size_t min, std::size_t max, std::size_t average, F&& f)
      {
         std::vector< std::decay_t< decltype( f())>> result;
         repeat( min, max, average, [&]( auto){ result.push_back( f());});
         return result;
      }

      std::string bytes( std::size_t size)
      {
         std::string result;
         for( ; result.size() < size;)
         {
            auto value = draw( 0);
            for( int index = 0; index < 8 && result.size() < size; ++index, value >>= 8)
               result.push_back( char( value));
         }
         return result;
      }

      //! big data: one choice decides the content
      std::string blob( std::size_t size)
      {
         u64 state = draw( 1000);
         std::string result( size, '\0');
         for( std::size_t index = 0; index < size; ++index)
         {
            if( index % 8 == 0)
               state = mix( state + index);
            result[ index] = char( state >> ( ( index % 8) * 8));
         }
         return result;
      }

      std::string text( std::string_view alphabet, std::size_t min, std::size_t max)
      {
         std::string result;
         repeat( min, max, std::min< std::size_t>( max, min + 6), [&]( auto){ result.push_back( alphabet[ draw( alphabet.size())]);});
         return result;
      }

      std::string identifier( std::size_t min = 1, std::size_t max = 12)
      {
         return text( "abcdefghijklmnopqrstuvwxyz_0123456789ABCXYZ", min, max);
      }

      // --- what the case tells about it self

      template< typename... Ts>
      void log( const Ts&... ts)
      {
         auto line = cat( ts...);
         if( log_fd >= 0)
         {
            auto out = line + "\n";
            std::ignore = ::write( log_fd, out.data(), out.size());
         }
         m_log.append( line).push_back( '\n');
      }

      void label( const std::string& name) { ++m_labels[ name];}
      void nontrivial( bool value = true) { m_nontrivial = m_nontrivial || value;}

      const std::vector< u64>& choices() const { return m_choices;}
      const std::vector< Span>& spans() const { return m_spans;}
      const std::string& trace() const { return m_log;}
      const std::map< std::string, long>& labels() const { return m_labels;}
      bool is_nontrivial() const { return m_nontrivial;}

      int log_fd = -1;

      //! shared memory that gets the choices as they are made, for cases that die
      u64* sink = nullptr;
      static constexpr std::size_t sink_size = 1 << 18;

      //! a directory of the case's own
      std::string scratch;

      //! index of the worker that runs the case (0..jobs-1); use it for tcp ports and the like
      int worker = 0;

   private:
      u64 m_state = 0;
      std::vector< u64> m_replay;
      bool m_random;
      std::vector< u64> m_choices;
      std::vector< Span> m_spans;
      std::string m_log;
      std::map< std::string, long> m_labels;
      bool m_nontrivial = false;
   };

   //! what to run, for harnesses that serve several properties
   inline std::string& mode()
   {
      static std::string value;
      return value;
   }

   struct Options
   {
      std::string property;
      std::string name;              // of the harness, argv[ 0] if not given
      std::string rule;              // how cases are made and what makes one non-trivial
      long quick = 1000;             // number of cases
      long thorough = 20000;
      bool isolated = false;         // a process per case
      double case_timeout = 60;      // seconds, then the case hangs
      int jobs = 8;
      double quick_cap = 300;        // seconds of generation; whatever is left is not run
      double thorough_cap = 3000;
      double shrink_cap = 100;       // seconds
      int confirm_runs = 5;          // a failing case is run again this many times,
      int confirm_needs = 3;         // and has to fail this often to be reported at once.
      int unconfirmed_limit = 3;     // this many failing cases that did not repeat are reported anyway, 0: never
      bool quiet = true;             // the output of isolated cases is dropped
      std::vector< std::string> assumptions;
   };

   namespace detail
   {
      using clock = std::chrono::steady_clock;
      inline double seconds( clock::time_point since) { return std::chrono::duration< double>( clock::now() - since).count();}

      inline std::string json( std::string_view value)
      {
         std::ostringstream out;
         out << '"';
         for( unsigned char c : value)
         {
            switch( c)
            {
               case '"': out << "\\\""; break;
               case '\\': out << "\\\\"; break;
               case '\n': out << "\\n"; break;
               default:
                  if( c >= 32 && c < 127)
                     out << c;
                  else
                     out << "\\u" << std::hex << std::setw( 4) << std::setfill( '0') << int( c) << std::dec;
            }
         }
         out << '"';
         return out.str();
      }

      // --------------------------------------------------------- processes

      inline std::vector< pid_t> children( pid_t pid)
      {
         std::vector< pid_t> result;
         std::ifstream in{ cat( "/proc/", pid, "/task/", pid, "/children")};
         pid_t child;
         while( in >> child)
            result.push_back( child);
         return result;
      }

      inline void descendants( pid_t pid, std::vector< pid_t>& result)
      {
         for( auto child : children( pid))
         {
            result.push_back( child);
            descendants( child, result);
         }
      }

      //! kills and reaps everything this process (a sub reaper) has below it
      inline void sweep()
      {
         for( int round = 0; round < 200; ++round)
         {
            std::vector< pid_t> pids;
            descendants( ::getpid(), pids);
            for( auto pid : pids)
               ::kill( pid, SIGKILL);
            while( ::waitpid( -1, nullptr, WNOHANG) > 0) {}
            if( pids.empty())
               return;
            ::usleep( 1000);
         }
      }

      inline void remove_tree( const std::string& path)
      {
         if( path.find( "/verif-") == std::string::npos)
            return; // only what we've created
         if( DIR* dir = ::opendir( path.c_str()))
         {
            while( auto entry = ::readdir( dir))
            {
               std::string name = entry->d_name;
               if( name == "." || name == "..")
                  continue;
               auto child = path + "/" + name;
               struct ::stat info{};
               if( ::lstat( child.c_str(), &info) == 0 && S_ISDIR( info.st_mode))
                  remove_tree( child);
               else
                  ::unlink( child.c_str());
            }
            ::closedir( dir);
         }
         ::rmdir( path.c_str());
      }

      // --------------------------------------------------------- results

      struct Outcome
      {
         enum Status : int { ok = 0, failed = 1, crashed = 2, hung = 3 };
         Status status = ok;
         std::string what;
         std::string trace;
         std::vector< u64> choices;
         std::vector< Span> spans;
         std::map< std::string, long> labels;
         bool nontrivial = false;
      };

      inline Outcome run_here( const std::function< void( Source&)>& property, Source& source)
      {
         Outcome result;
         try
         {
            property( source);
         }
         catch( const Failure& exception)
         {
            result.status = Outcome::failed;
            result.what = exception.what();
         }
         catch( const std::exception& exception)
         {
            result.status = Outcome::failed;
            result.what = cat( "unexpected exception: ", exception.what());
         }
         catch( ...)
         {
            result.status = Outcome::failed;
            result.what = "unexpected unknown exception";
         }
         result.trace = source.trace();
         result.choices = source.choices();
         result.spans = source.spans();
         result.labels = source.labels();
         result.nontrivial = source.is_nontrivial();
         return result;
      }

      struct Wire
      {
         std::string data;
         void number( u64 value) { data.append( reinterpret_cast< const char*>( &value), sizeof( value));}
         void string( const std::string& value) { number( value.size()); data.append( value);}
         std::size_t offset = 0;
         u64 number()
         {
            u64 result = 0;
            if( offset + sizeof( result) > data.size())
               throw std::runtime_error{ "short record"};
            std::memcpy( &result, data.data() + offset, sizeof( result));
            offset += sizeof( result);
            return result;
         }
         std::string string()
         {
            auto size = number();
            if( offset + size > data.size())
               throw std::runtime_error{ "short record"};
            auto result = data.substr( offset, size);
            offset += size;
            return result;
         }
      };

      inline std::string pack( const Outcome& outcome)
      {
         Wire wire;
         wire.number( outcome.status);
         wire.string( outcome.what);
         wire.string( outcome.trace);
         wire.number( outcome.choices.size());
         for( auto c : outcome.choices) wire.number( c);
         wire.number( outcome.spans.size());
         for( auto& s : outcome.spans) { wire.number( s.begin); wire.number( s.end);}
         wire.number( outcome.labels.size());
         for( auto& [ name, count] : outcome.labels) { wire.string( name); wire.number( count);}
         wire.number( outcome.nontrivial);
         return std::move( wire.data);
      }

      inline Outcome unpack( Wire& wire)
      {
         Outcome result;
         result.status = Outcome::Status( wire.number());
         result.what = wire.string();
         result.trace = wire.string();
         for( auto count = wire.number(); count > 0; --count) result.choices.push_back( wire.number());
         for( auto count = wire.number(); count > 0; --count) { auto begin = wire.number(); auto end = wire.number(); result.spans.push_back( { begin, end});}
         for( auto count = wire.number(); count > 0; --count) { auto name = wire.string(); result.labels[ name] = long( wire.number());}
         result.nontrivial = wire.number();
         return result;
      }

      struct Engine
      {
         Options options;
         std::function< void( Source&)> property;
         std::string root; // scratch
         bool quiet = true; // the output of the cases

         std::string case_directory( int worker, const std::string& tag)
         {
            auto path = cat( root, "/", worker, tag);
            ::mkdir( path.c_str(), 0755);
            return path;
         }

         //! one case in a process of its own. `make` gives the source
         Outcome run_isolated( int worker, const std::function< Source()>& make)
         {
            static long counter = 0;
            auto scratch = case_directory( worker, cat( "-", ::getpid(), "-", ++counter));

            static u64* sink = static_cast< u64*>( ::mmap( nullptr, Source::sink_size * sizeof( u64), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
            sink[ 0] = 0;

            int fds[ 2];
            if( ::pipe( fds) != 0)
               throw std::runtime_error{ "pipe"};

            const int log = ::memfd_create( "trace", MFD_CLOEXEC);
            ::fcntl( fds[ 0], F_SETFD, FD_CLOEXEC);
            ::fcntl( fds[ 1], F_SETFD, FD_CLOEXEC);

            const auto pid = ::fork();
            if( pid == 0)
            {
               ::close( fds[ 0]);
               ::setpgid( 0, 0);
               ::setenv( "TMPDIR", scratch.c_str(), 1);
               if( quiet)
                  if( auto null = ::open( "/dev/null", O_WRONLY); null >= 0)
                  {
                     ::dup2( null, 1);
                     ::dup2( null, 2);
                     ::close( null);
                  }
               auto source = make();
               source.log_fd = log;
               source.sink = sink;
               source.scratch = scratch;
               source.worker = worker;
               auto outcome = run_here( property, source);
               auto data = pack( outcome);
               for( std::size_t offset = 0; offset < data.size();)
               {
                  auto count = ::write( fds[ 1], data.data() + offset, data.size() - offset);
                  if( count <= 0)
                     break;
                  offset += count;
               }
               std::cout.flush();
               ::_exit( 0);
            }
            ::close( fds[ 1]);

            Wire wire;
            bool hung = false;
            const auto start = clock::now();
            for(;;)
            {
               const auto left = options.case_timeout - seconds( start);
               if( left <= 0) { hung = true; break;}
               ::pollfd poll{ fds[ 0], POLLIN, 0};
               const auto ready = ::poll( &poll, 1, int( std::min( left, 1.0) * 1000) + 1);
               if( ready < 0 && errno != EINTR)
                  break;
               if( ready > 0)
               {
                  char buffer[ 65536];
                  auto count = ::read( fds[ 0], buffer, sizeof( buffer));
                  if( count <= 0)
                     break;
                  wire.data.append( buffer, count);
               }
            }
            ::close( fds[ 0]);
            int status = 0;
            if( hung)
            {
               ::kill( pid, SIGKILL);
               ::waitpid( pid, &status, 0);
            }
            else
               ::waitpid( pid, &status, 0);
            sweep();

            Outcome result;
            bool whole = false;
            if( ! hung)
            {
               try { result = unpack( wire); whole = true;}
               catch( const std::exception&) {}
            }
            if( ! whole)
            {
               result.status = hung ? Outcome::hung : Outcome::crashed;
               result.what = hung ? cat( "no progress within ", options.case_timeout, " s")
                  : WIFSIGNALED( status) ? cat( "the process died from signal ", WTERMSIG( status))
                  : cat( "the process exited with ", WEXITSTATUS( status));
               char buffer[ 65536];
               ::lseek( log, 0, SEEK_SET);
               for( ssize_t count; ( count = ::read( log, buffer, sizeof( buffer))) > 0;)
                  result.trace.append( buffer, count);
               result.choices.assign( sink + 1, sink + 1 + sink[ 0]);
            }
            ::close( log);
            if( ! std::getenv( "VERIF_KEEP"))
               remove_tree( scratch);
            return result;
         }

         Outcome replay( const std::vector< u64>& choices, int worker = 0)
         {
            return run_isolated( worker, [&](){ return Source{ choices};});
         }

         // ------------------------------------------------------ generation

         struct Shared
         {
            std::atomic< long> next;
            std::atomic< long> failed;      // lowest failing index, or max
            struct Slot { std::atomic< long> index; std::atomic< long> since; } slots[ 64];
         };

         struct Failed { std::string what; Outcome outcome;};

         struct Summary
         {
            long evaluations = 0;
            long next = 0;                 // first index not looked at
            std::set< u64> distinct;
            std::map< std::string, long> labels;
            std::vector< std::string> samples;
            std::map< long, Failed> failures; // index -> what
         };

         u64 seed_of( u64 seed, long index) const { return mix( mix( seed * 1000003 + 17) ^ u64( index) ^ hash( options.property));}

         void generate( Summary& summary, u64 seed, long cases, double cap)
         {
            const auto first_case = summary.next;
            auto* shared = static_cast< Shared*>( ::mmap( nullptr, sizeof( Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
            new( shared) Shared{};
            shared->failed = cases;
            shared->next = first_case;
            for( auto& slot : shared->slots) slot.index = -1;

            struct Worker { pid_t pid = 0; int fd = -1; std::string data;};
            std::vector< Worker> workers( options.jobs);
            const auto start = clock::now();

            auto now_ms = [&](){ return long( seconds( start) * 1000);};

            auto spawn = [&]( int number)
            {
               int fds[ 2];
               if( ::pipe( fds) != 0)
                  throw std::runtime_error{ "pipe"};
               ::fcntl( fds[ 0], F_SETFD, FD_CLOEXEC);
               ::fcntl( fds[ 1], F_SETFD, FD_CLOEXEC);
               const auto pid = ::fork();
               if( pid == 0)
               {
                  ::close( fds[ 0]);
                  ::prctl( PR_SET_CHILD_SUBREAPER, 1);
                  ::prctl( PR_SET_PDEATHSIG, SIGKILL);
                  auto send = [&]( const Outcome& outcome, long index)
                  {
                     Wire wire;
                     wire.number( index);
                     auto data = wire.data + pack( outcome);
                     Wire head; head.number( data.size());
                     data = head.data + data;
                     for( std::size_t offset = 0; offset < data.size();)
                     {
                        auto count = ::write( fds[ 1], data.data() + offset, data.size() - offset);
                        if( count <= 0)
                           ::_exit( 3);
                        offset += count;
                     }
                  };
                  std::string scratch;
                  if( ! options.isolated)
                  {
                     scratch = case_directory( number, "");
                     ::setenv( "TMPDIR", scratch.c_str(), 1);
                  }
                  for(;;)
                  {
                     const auto index = shared->next.fetch_add( 1);
                     if( index >= cases || index > shared->failed || seconds( start) > cap)
                        break;
                     auto& slot = shared->slots[ number];
                     slot.since = now_ms();
                     slot.index = index;
                     Outcome outcome;
                     auto seed_value = seed_of( seed, index);
                     if( options.isolated)
                        outcome = run_isolated( number, [&](){ return Source{ seed_value};});
                     else
                     {
                        Source source{ seed_value};
                        source.scratch = scratch;
                        source.worker = number;
                        outcome = run_here( property, source);
                     }
                     slot.index = -1;
                     if( outcome.status != Outcome::ok)
                     {
                        auto current = shared->failed.load();
                        while( index < current && ! shared->failed.compare_exchange_weak( current, index)) {}
                     }
                     // only what the parent needs
                     if( outcome.trace.size() > 6000 && outcome.status == Outcome::ok)
                        outcome.trace = outcome.trace.substr( 0, 6000) + "...";
                     u64 fingerprint = hash( outcome.trace);
                     for( auto c : outcome.choices) fingerprint = mix( fingerprint ^ c);
                     if( outcome.status == Outcome::ok)
                     {
                        outcome.spans.clear();
                        outcome.choices.clear();
                     }
                     outcome.choices.insert( outcome.choices.begin(), fingerprint);
                     if( index >= 40 && outcome.status == Outcome::ok)
                        outcome.trace.clear();
                     send( outcome, index);
                  }
                  ::_exit( 0);
               }
               ::close( fds[ 1]);
               workers[ number].pid = pid;
               workers[ number].fd = fds[ 0];
               workers[ number].data.clear();
            };

            for( int number = 0; number < options.jobs; ++number)
               spawn( number);

            auto consume = [&]( Worker& worker)
            {
               for(;;)
               {
                  Wire head{ worker.data};
                  if( worker.data.size() < sizeof( u64))
                     return;
                  auto size = head.number();
                  if( worker.data.size() < sizeof( u64) + size)
                     return;
                  Wire wire{ worker.data.substr( sizeof( u64), size)};
                  worker.data.erase( 0, sizeof( u64) + size);
                  auto index = long( wire.number());
                  auto outcome = unpack( wire);
                  ++summary.evaluations;
                  summary.next = std::max( summary.next, index + 1);
                  for( auto& [ name, count] : outcome.labels)
                     summary.labels[ name] += count;
                  if( outcome.nontrivial)
                     summary.distinct.insert( outcome.choices.at( 0));
                  if( outcome.nontrivial && outcome.status == Outcome::ok && summary.samples.size() < 3 && ! outcome.trace.empty())
                     summary.samples.push_back( outcome.trace.size() > 1200 ? outcome.trace.substr( 0, 1200) + "..." : outcome.trace);
                  if( outcome.status != Outcome::ok)
                  {
                     outcome.choices.erase( outcome.choices.begin());
                     summary.failures[ index] = Failed{ outcome.what, std::move( outcome)};
                  }
               }
            };

            for(;;)
            {
               std::vector< ::pollfd> polls;
               std::vector< int> numbers;
               for( int number = 0; number < options.jobs; ++number)
                  if( workers[ number].fd >= 0)
                  {
                     polls.push_back( { workers[ number].fd, POLLIN, 0});
                     numbers.push_back( number);
                  }
               if( polls.empty())
                  break;
               ::poll( polls.data(), polls.size(), 500);
               for( std::size_t i = 0; i < polls.size(); ++i)
               {
                  auto number = numbers[ i];
                  auto& worker = workers[ number];
                  auto& slot = shared->slots[ number];
                  if( polls[ i].revents)
                  {
                     char buffer[ 65536];
                     auto count = ::read( worker.fd, buffer, sizeof( buffer));
                     if( count > 0)
                     {
                        worker.data.append( buffer, count);
                        consume( worker);
                        continue;
                     }
                     ::close( worker.fd);
                     worker.fd = -1;
                     int status = 0;
                     ::waitpid( worker.pid, &status, 0);
                     if( auto index = slot.index.load(); index >= 0)
                     {
                        // it died in a case
                        slot.index = -1;
                        ++summary.evaluations;
                        summary.next = std::max( summary.next, index + 1);
                        summary.failures[ index].what = WIFSIGNALED( status) ? cat( "the process died from signal ", WTERMSIG( status)) : cat( "the process exited with ", WEXITSTATUS( status));
                        auto current = shared->failed.load();
                        while( index < current && ! shared->failed.compare_exchange_weak( current, index)) {}
                     }
                     continue;
                  }
                  if( ! options.isolated && slot.index >= 0 && ( now_ms() - slot.since) > options.case_timeout * 1000)
                  {
                     auto index = slot.index.load();
                     ::kill( worker.pid, SIGKILL);
                     ::waitpid( worker.pid, nullptr, 0);
                     ::close( worker.fd);
                     worker.fd = -1;
                     slot.index = -1;
                     ++summary.evaluations;
                     summary.next = std::max( summary.next, index + 1);
                     summary.failures[ index].what = cat( "no progress within ", options.case_timeout, " s");
                     auto current = shared->failed.load();
                     while( index < current && ! shared->failed.compare_exchange_weak( current, index)) {}
                  }
               }
            }
            sweep();
            ::munmap( shared, sizeof( Shared));
         }

         // ------------------------------------------------------ shrinking

         struct Shrunk { std::vector< u64> choices; Outcome outcome; long attempts = 0;};

         //! tries candidates concurrently; first (lowest index) that fails is taken
         struct Attempt { std::vector< u64> choices; Outcome outcome;};

         //! all of them concurrently, each in a forked helper (own sub reaper)
         std::vector< std::optional< Outcome>> run_many( const std::vector< std::function< Source()>>& makers)
         {
            struct Helper { pid_t pid; int fd; std::string data;};
            std::vector< Helper> helpers;
            for( std::size_t i = 0; i < makers.size(); ++i)
            {
               int fds[ 2];
               if( ::pipe( fds) != 0)
                  throw std::runtime_error{ "pipe"};
               ::fcntl( fds[ 0], F_SETFD, FD_CLOEXEC);
               ::fcntl( fds[ 1], F_SETFD, FD_CLOEXEC);
               auto pid = ::fork();
               if( pid == 0)
               {
                  ::close( fds[ 0]);
                  ::prctl( PR_SET_CHILD_SUBREAPER, 1);
                  ::prctl( PR_SET_PDEATHSIG, SIGKILL);
                  auto outcome = run_isolated( int( i), makers[ i]);
                  auto data = pack( outcome);
                  for( std::size_t offset = 0; offset < data.size();)
                  {
                     auto count = ::write( fds[ 1], data.data() + offset, data.size() - offset);
                     if( count <= 0)
                        break;
                     offset += count;
                  }
                  ::_exit( 0);
               }
               ::close( fds[ 1]);
               helpers.push_back( { pid, fds[ 0], {}});
            }
            std::vector< std::optional< Outcome>> result;
            for( auto& helper : helpers)
            {
               char buffer[ 65536];
               for( ssize_t count; ( count = ::read( helper.fd, buffer, sizeof( buffer))) > 0;)
                  helper.data.append( buffer, count);
               ::close( helper.fd);
               ::waitpid( helper.pid, nullptr, 0);
               try
               {
                  Wire wire{ helper.data};
                  result.push_back( unpack( wire));
               }
               catch( const std::exception&) { result.push_back( {});}
            }
            return result;
         }

         //! @returns the failing ones, and how many runs there were
         std::vector< Attempt> repeat( const std::function< Source()>& make, int runs, int needs, int& rounds)
         {
            std::vector< Attempt> result;
            for( rounds = 0; rounds < runs && int( result.size()) < needs;)
            {
               const auto portion = std::min( options.jobs, runs - rounds);
               rounds += portion;
               for( auto& outcome : run_many( std::vector< std::function< Source()>>( portion, make)))
                  if( outcome && outcome->status != Outcome::ok)
                     result.push_back( Attempt{ outcome->choices, std::move( *outcome)});
            }
            return result;
         }

         std::optional< Attempt> first_failing( std::vector< std::vector< u64>> candidates, Outcome::Status status, const std::string& kind, bool parallel)
         {
            const std::size_t batch = parallel ? std::size_t( options.jobs) : 1;
            for( std::size_t begin = 0; begin < candidates.size(); begin += batch)
            {
               std::vector< std::function< Source()>> makers;
               for( std::size_t i = begin; i < std::min( begin + batch, candidates.size()); ++i)
                  makers.push_back( [&candidates, i](){ return Source{ candidates[ i]};});
               auto outcomes = run_many( makers);
               for( std::size_t i = 0; i < outcomes.size(); ++i)
                  if( auto& outcome = outcomes[ i]; outcome && outcome->status != Outcome::ok && ( status == Outcome::hung) == ( outcome->status == Outcome::hung))
                  {
                     auto choices = outcome->choices.empty() ? candidates[ begin + i] : outcome->choices;
                     return Attempt{ std::move( choices), std::move( *outcome)};
                  }
            }
            return {};
         }

         static bool simpler( const std::vector< u64>& a, const std::vector< u64>& b)
         {
            if( a.size() != b.size())
               return a.size() < b.size();
            return a < b;
         }

         Attempt shrink( Attempt best, double cap)
         {
            const auto start = clock::now();
            std::set< u64> tried;
            auto fingerprint = []( const std::vector< u64>& choices)
            {
               u64 result = choices.size();
               for( auto c : choices) result = mix( result ^ c);
               return result;
            };
            auto attempt = [&]( std::vector< std::vector< u64>> candidates)
            {
               std::vector< std::vector< u64>> fresh;
               for( auto& candidate : candidates)
                  if( candidate != best.choices && simpler( candidate, best.choices) && tried.insert( fingerprint( candidate)).second)
                     fresh.push_back( std::move( candidate));
               // in portions, to respect the cap
               for( std::size_t i = 0; i < fresh.size(); i += std::size_t( options.jobs))
               {
                  if( seconds( start) > cap)
                     return false;
                  std::vector< std::vector< u64>> portion( fresh.begin() + i, fresh.begin() + std::min( fresh.size(), i + std::size_t( options.jobs)));
                  if( auto found = first_failing( portion, best.outcome.status, best.outcome.what, true))
                  {
                     if( simpler( found->choices, best.choices))
                     {
                        best = std::move( *found);
                        return true;
                     }
                  }
               }
               return false;
            };

            bool progress = true;
            while( progress && seconds( start) < cap)
            {
               progress = false;
               // spans, biggest first
               for( bool again = true; again && seconds( start) < cap;)
               {
                  again = false;
                  auto spans = best.outcome.spans;
                  std::sort( spans.begin(), spans.end(), []( auto& l, auto& r){ return ( l.end - l.begin) > ( r.end - r.begin);});
                  std::vector< std::vector< u64>> candidates;
                  for( auto& span : spans)
                  {
                     if( span.end > best.choices.size() || span.begin >= span.end)
                        continue;
                     auto candidate = best.choices;
                     candidate.erase( candidate.begin() + span.begin, candidate.begin() + span.end);
                     candidates.push_back( std::move( candidate));
                  }
                  if( attempt( std::move( candidates)))
                     again = progress = true;
               }
               // chunks
               for( std::size_t size = std::max< std::size_t>( best.choices.size() / 2, 1); size > 0 && seconds( start) < cap; size /= 2)
               {
                  for( bool again = true; again && seconds( start) < cap;)
                  {
                     again = false;
                     std::vector< std::vector< u64>> candidates;
                     for( std::size_t begin = 0; begin + size <= best.choices.size() && candidates.size() < 400; begin += std::max< std::size_t>( size / 2, 1))
                     {
                        auto candidate = best.choices;
                        candidate.erase( candidate.begin() + begin, candidate.begin() + begin + size);
                        candidates.push_back( std::move( candidate));
                     }
                     if( attempt( std::move( candidates)))
                        again = progress = true;
                  }
               }
               // lower single values
               for( std::size_t index = 0; index < best.choices.size() && seconds( start) < cap; ++index)
               {
                  auto value = best.choices[ index];
                  if( value == 0)
                     continue;
                  std::vector< std::vector< u64>> candidates;
                  for( u64 lower : { u64{ 0}, u64{ 1}, value / 2, value - value / 4, value - 1})
                     if( lower < value)
                     {
                        auto candidate = best.choices;
                        candidate[ index] = lower;
                        candidates.push_back( std::move( candidate));
                     }
                  if( attempt( std::move( candidates)))
                  {
                     progress = true;
                     if( index < best.choices.size() && best.choices[ index] != 0)
                        --index;
                  }
               }
            }
            return best;
         }
      };

      inline std::vector< u64> read_replay( const std::string& path)
      {
         std::ifstream in{ path};
         std::string content{ std::istreambuf_iterator< char>{ in}, {}};
         auto at = content.find( "\"choices\"");
         if( at == std::string::npos)
            throw std::runtime_error{ cat( "no choices in ", path)};
         at = content.find( '[', at);
         std::vector< u64> result;
         const char* pointer = content.c_str() + at + 1;
         for(;;)
         {
            while( *pointer == ' ' || *pointer == ',' || *pointer == '\n')
               ++pointer;
            if( *pointer == ']' || *pointer == '\0')
               break;
            char* end = nullptr;
            result.push_back( std::strtoull( pointer, &end, 10));
            if( end == pointer)
               break;
            pointer = end;
         }
         return result;
      }
   } // detail

   //! the main of a harness
   inline int run( int argc, char** argv, Options options, std::function< void( Source&)> property)
   {
      using namespace detail;
      const auto start = clock::now();
      if( options.name.empty())
         options.name = std::string_view{ argv[ 0]}.substr( std::string_view{ argv[ 0]}.rfind( '/') + 1);
      std::string tier = std::getenv( "VERIF_TIER") ? std::getenv( "VERIF_TIER") : "quick";
      u64 seed = std::getenv( "VERIF_SEED") ? std::strtoull( std::getenv( "VERIF_SEED"), nullptr, 10) : 1;
      std::string evidence, replay_file, replay_directory = "/tmp";
      long cases = -1;
      long only = -1;
      int only_rounds = 1;
      for( int index = 1; index < argc; ++index)
      {
         std::string option = argv[ index];
         auto value = [&]() -> std::string { return ++index < argc ? argv[ index] : "";};
         if( option == "--tier") tier = value();
         else if( option == "--seed") seed = std::stoull( value());
         else if( option == "--property") options.property = value();
         else if( option == "--mode") mode() = value();
         else if( option == "--evidence") evidence = value();
         else if( option == "--replay") replay_file = value();
         else if( option == "--replay-dir") replay_directory = value();
         else if( option == "--cases") cases = std::stol( value());
         else if( option == "--only") only = std::stol( value());       // one case of the seed,
         else if( option == "--rounds") only_rounds = std::stoi( value()); // this many times
         else if( option == "--jobs") options.jobs = std::stoi( value());
         else { std::cerr << "unknown option " << option << '\n'; return 2;}
      }
      if( tier != "thorough")
         tier = "quick";
      if( cases < 0)
         cases = tier == "quick" ? options.quick : options.thorough;
      const auto cap = tier == "quick" ? options.quick_cap : options.thorough_cap;
      options.jobs = std::clamp( options.jobs, 1, 60);
      options.quiet = options.quiet && ! std::getenv( "VERIF_KEEP");

      ::prctl( PR_SET_CHILD_SUBREAPER, 1);
      ::signal( SIGPIPE, SIG_IGN);

      Engine engine{ options, property, cat( "/tmp/verif-", ::getpid()), options.quiet};
      ::mkdir( engine.root.c_str(), 0755);
      struct Cleanup { std::string path; pid_t pid = ::getpid(); ~Cleanup(){ if( pid == ::getpid() && ! std::getenv( "VERIF_KEEP")) remove_tree( path);}} cleanup{ engine.root};

      if( ! replay_file.empty())
      {
         engine.quiet = false;
         auto outcome = engine.replay( read_replay( replay_file));
         std::cout << outcome.trace;
         std::cout << ( outcome.status == Outcome::ok ? std::string{ "REPLAY: holds"} : "REPLAY: fails: " + outcome.what) << std::endl;
         return outcome.status == Outcome::ok ? 0 : 1;
      }

      if( only >= 0)
      {
         int rounds = 0;
         auto attempts = engine.repeat( [&](){ return Source{ engine.seed_of( seed, only)};}, only_rounds, only_rounds, rounds);
         for( auto& attempt : attempts)
            std::cout << attempt.outcome.trace << "FAILS: " << attempt.outcome.what << '\n';
         std::cout << attempts.size() << " of " << rounds << " fail" << std::endl;
         return attempts.empty() ? 0 : 1;
      }

      Engine::Summary summary;
      int result = 0;
      long violations = 0;
      std::vector< std::string> unconfirmed;

      auto report = [&]( long index, const Engine::Attempt& attempt, const std::string& repeats)
      {
         const auto seed_value = engine.seed_of( seed, index);
         auto path = cat( replay_directory, "/", options.property, "-", std::hex, seed_value, ".json");
         {
            std::ofstream out{ path};
            out << "{ \"property\": " << json( options.property) << ", \"harness\": " << json( options.name) << ", \"mode\": " << json( mode())
               << ",\n  \"seed\": " << seed << ", \"case\": " << index
               << ", \"case_seed\": " << json( cat( seed_value)) << ",\n  \"what\": " << json( attempt.outcome.what)
               << ",\n  \"repeats\": " << json( repeats) << ",\n  \"choices\": [";
            for( std::size_t i = 0; i < attempt.choices.size(); ++i)
               out << ( i ? ", " : "") << attempt.choices[ i];
            out << "],\n  \"trace\": [";
            std::istringstream lines{ attempt.outcome.trace};
            bool first = true;
            for( std::string line; std::getline( lines, line); first = false)
               out << ( first ? "\n    " : ",\n    ") << json( line);
            out << "\n  ]\n}\n";
         }
         std::cout << attempt.outcome.trace << "FAILS: " << attempt.outcome.what << " (" << repeats << ")" << std::endl;
         std::cout << "VIOLATION property=" << options.property << " replay=" << path << std::endl;
         ++violations;
         result = 1;
      };

      std::set< long> looked_at;
      std::vector< std::pair< long, Engine::Attempt>> unrepeatable;
      while( result == 0 && summary.next < cases && seconds( start) < cap)
      {
         engine.generate( summary, seed, cases, cap - seconds( start));

         // confirm, shrink and report the first failure that repeats it self
         bool news = false;
         for( auto& [ index, failed] : summary.failures)
         {
            if( ! looked_at.insert( index).second)
               continue;
            news = true;
            std::cout << "case " << index << ": " << failed.what << std::endl;
            const auto seed_value = engine.seed_of( seed, index);

            int rounds = 0;
            auto attempts = engine.repeat( [&](){ return Source{ seed_value};}, options.confirm_runs, options.confirm_needs, rounds);
            const auto repeats = cat( "fails in ", attempts.size(), " of ", rounds, " further runs");
            if( int( attempts.size()) < options.confirm_needs)
            {
               unconfirmed.push_back( cat( "case ", index, " failed once, then ", repeats, ": ", failed.what));
               std::cout << "  " << repeats << std::endl;
               if( std::getenv( "VERIF_VERBOSE"))
                  std::cout << failed.outcome.trace << std::endl;
               if( failed.outcome.status == Outcome::failed)
                  unrepeatable.emplace_back( index, Engine::Attempt{ failed.outcome.choices, failed.outcome});
               else if( ! attempts.empty() && attempts.front().outcome.status == Outcome::failed)
                  unrepeatable.emplace_back( index, attempts.front());
               continue;
            }
            auto best = attempts.front();
            if( ! best.choices.empty())
            {
               // hung cases cost too much to shrink a lot
               auto shrunk = engine.shrink( best, best.outcome.status == Outcome::hung ? std::min( options.shrink_cap, 60.0) : options.shrink_cap);
               int again_rounds = 0;
               auto again = engine.repeat( [&](){ return Source{ shrunk.choices};}, options.confirm_runs, options.confirm_needs, again_rounds);
               if( int( again.size()) >= options.confirm_needs)
               {
                  best.choices = shrunk.choices;
                  best.outcome = again.front().outcome;
               }
            }
            report( index, best, repeats);
            break;
         }
         if( result == 0 && options.unconfirmed_limit > 0 && int( unrepeatable.size()) >= options.unconfirmed_limit)
            report( unrepeatable.front().first, unrepeatable.front().second, cat( unrepeatable.size(), " cases failed and did not repeat"));
         if( ! news)
            break;
      }
      const bool capped = result == 0 && summary.next < cases;

      if( ! evidence.empty())
      {
         std::ofstream out{ evidence};
         out << "{\n  \"property\": " << json( options.property) << ",\n  \"tier\": " << json( tier) << ",\n  \"seed\": " << seed
            << ",\n  \"level\": \"exploration\",\n  \"coverage\": {\n    \"evaluations\": " << summary.evaluations
            << ",\n    \"distinct_nontrivial\": " << summary.distinct.size()
            << ",\n    \"rule\": " << json( options.rule)
            << ",\n    \"classes\": {";
         bool first = true;
         for( auto& [ name, count] : summary.labels)
         {
            out << ( first ? "\n      " : ",\n      ") << json( name) << ": " << count;
            first = false;
         }
         out << "\n    },\n    \"cut_short\": " << ( capped ? "true" : "false") << ",\n    \"not_repeatable\": [";
         first = true;
         for( auto& text : unconfirmed)
         {
            out << ( first ? "" : ", ") << json( text);
            first = false;
         }
         out << "],\n    \"samples\": [";
         first = true;
         for( auto& sample : summary.samples)
         {
            out << ( first ? "\n      " : ",\n      ") << json( sample);
            first = false;
         }
         out << "\n    ]\n  },\n  \"assumptions\": [";
         first = true;
         for( auto& text : options.assumptions)
         {
            out << ( first ? "" : ", ") << json( text);
            first = false;
         }
         out << "],\n  \"wall_s\": " << seconds( start) << ",\n  \"violations\": " << violations << "\n}\n";
      }
      std::cout << options.property << ": " << summary.evaluations << " cases, " << summary.distinct.size() << " distinct non-trivial, "
         << ( capped ? "cut short, " : "") << violations << " violation(s), " << seconds( start) << " s" << std::endl;
      return result;
   }

} // pbt
