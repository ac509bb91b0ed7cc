SEEDS = []
LIB = '''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
/usr/bin/g++-11 -std=c++11 -O1 -Isrc "$here/demo.cpp" _build/libpolypanda.a -pthread -o "$tmp/demo" || exit 9
timeout 100 "$tmp/demo"
'''


def lib(id, prop, reps, cpp, needs, what, **kw):
    SEEDS.append(dict(id=id, property=prop, reps=reps, files={"demo.sh": LIB, "demo.cpp": cpp}, needs=needs, what=what, **kw))


def cli(id, prop, reps, script, needs, what, files=None, **kw):
    fs = {"demo.sh": '''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
panda=$PWD/_build/panda
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
''' + script}
    fs.update(files or {})
    SEEDS.append(dict(id=id, property=prop, reps=reps, files=fs, needs=needs, what=what, **kw))


lib("c02-carry-word", "C02",
    [("big_integer.cpp", '''      if ( carry && second[i] + 1 == 0 )
      {
         carry = true; // data[i] stays the same, but we get a carry
      }
      else
      {
         const auto old_value = data[i];
         data[i] += second[i] + ((carry) ? 1 : 0);
         carry = (data[i] < old_value); // we get a carry iff data[i] > data[i] + second[i] + carry.
      }''', '''      const auto old_value = data[i];
      data[i] += second[i] + ((carry) ? 1 : 0);
      carry = (data[i] < old_value); // we get a carry iff data[i] > data[i] + second[i] + carry.''')],
    '''#include "big_integer.h"
#include <cstdint>
using namespace panda;
int main()
{
   const BigInteger w(UINT64_MAX);
   const BigInteger b = w + BigInteger(1);         // 2^64
   const BigInteger x = b * b - BigInteger(1);      // 2^128 - 1
   const BigInteger s = x + x;                      // 2^129 - 2
   return (s - x == x && s > x) ? 0 : 1;
}
''', "a carry into a word of the second operand that consists of ones only", "The carry out of that word is lost: sums of multi-word integers are wrong by 2^64.")
lib("c02-borrow-equal", "C02",
    [("big_integer.cpp", "      carry = ( data[i] == 0 ); // while there is still a carry and data is big enough, data[i] is incremented\n      --data[i]; // (carry only)", "      --data[i];\n      carry = ( data[i] == 0 ); // (carry only)")],
    '''#include "big_integer.h"
#include <cstdint>
using namespace panda;
int main()
{
   const BigInteger b = BigInteger(UINT64_MAX) + BigInteger(1); // 2^64
   const BigInteger c = b * b + b;                               // words 0, 1, 1
   const BigInteger d = c - BigInteger(1);                       // borrow stops at word 1
   const BigInteger e = b * b - BigInteger(1);                   // borrow passes word 1
   return (d + BigInteger(1) == c && e + BigInteger(1) == b * b) ? 0 : 1;
}
''', "a borrow that reaches a word beyond the length of the subtrahend", "The borrow is propagated by the wrong condition (after instead of before the decrement).")
lib("c03-convert-int-min", "C03",
    [("big_integer_constructors.cpp", "else if ( sign == Sign::Negative && data[0] - 1 > int_max )", "else if ( sign == Sign::Negative && data[0] > int_max + 2 )")],
    '''#include "big_integer.h"
#include <climits>
using namespace panda;
int main()
{
   BigInteger b(INT_MIN);
   b -= BigInteger(1);
   try { const int i = b; (void)i; return 1; }
   catch ( const std::exception& ) { return 0; }
}
''', "the value one below the smallest int", "The conversion to int returns a wrong value instead of throwing.")
lib("c03-compare-sign", "C03",
    [("big_integer_comparisons.cpp", "   if ( data.size() > 1 ) // magnitude is bigger, so it all comes down to the sign of this.\n   {\n      return (sign == Sign::Positive);\n   }\n   if ( (sign == Sign::Positive) != (value >= 0) )", "   if ( data.size() > 1 ) // magnitude is bigger.\n   {\n      return true;\n   }\n   if ( (sign == Sign::Positive) != (value >= 0) )")],
    '''#include "big_integer.h"
#include <cstdint>
using namespace panda;
int main()
{
   BigInteger b(INT64_MIN);
   b = b * BigInteger(4); // -2^65
   return (!(b > 7) && b <= 7 && b < 7) ? 0 : 1;
}
''', "a negative number of more than one word compared with an int", "operator> claims that a huge negative number is greater than an int.")
lib("c04-multiply-limit", "C04",
    [("big_integer_arithmetics.cpp", "if ( (a > 0 && limit / b < a) || (a < 0 && limit / b > a) )", "if ( (a > 0 && limit / b < a) || (a < 0 && limit / b > a + 1) )")],
    '''#include "big_integer.h"
#include <climits>
using namespace panda;
int main()
{  // -46341 * -46341 = 2147488281 > INT_MAX, limit / b = -46340
   const BigInteger a(-46341), b(-46341);
   return (a * b == BigInteger(int64_t(46341) * 46341)) ? 0 : 1;
}
''', "a negative factor one beyond the limit of int multiplication", "The machine multiplication overflows instead of falling back to the general algorithm.")
lib("c12-fraction-sign", "C12",
    [("algorithm_row_operations.cpp", "stream << '/' << denominator / gcd_value;", "stream << '/' << vertex.back() / gcd_value;")],
    '''#include <sstream>
#include "algorithm_row_operations.h"
using namespace panda;
int main()
{
   std::stringstream s;
   algorithm::printFractional(s, Row<int>{3, -4, -6});
   std::string a, b;
   s >> a >> b;
   return (a == "-1/2" && b == "2/3") ? 0 : 1;
}
''', "a vertex with a negative denominator", "Every fraction of the printed vertex has the wrong sign.")
lib("c12-term-merge", "C12",
    [("algorithm_row_operations.cpp", "         if ( row[i] == 1 )\n         {\n            if ( printed_something )", "         if ( row[i] == 1 )\n         {\n            if ( printed_something && i + 2 < row.size() )")],
    '''#include <sstream>
#include "algorithm_row_operations.h"
using namespace panda;
int main()
{
   std::stringstream s;
   algorithm::prettyPrint(s, Row<int>{2, 1, -4}, Names{"x", "y"}, "<=");
   std::string t;
   for ( char c; s.get(c); )
   {
      if ( c != ' ' )
      {
         t += c;
      }
   }
   return (t == "2x+y<=4") ? 0 : 1;
}
''', "coefficient one in the last place after another term, printed with names", "The sign between two terms is missing: the line reads as another inequality.")
POOL = '''#include <future>
#include <iostream>
#include <streambuf>
#include <thread>
#include <chrono>
#include <functional>
#include "list.h"
#include "tags.h"
using namespace panda;
using Pool = List<int, tag::facet>;
struct Hook : std::streambuf
{
   std::function<void()> f;
   bool busy = false;
   void hit() { if ( !busy && f ) { busy = true; f(); } }
   int overflow(int c) override { hit(); return c; }
   std::streamsize xsputn(const char*, std::streamsize n) override { hit(); return n; }
};
'''
lib("c05-print-unlocked", "C05",
    [("list.cpp", '''   std::lock_guard<std::mutex> lock(mutex);
   Iterator it;
   bool added;
   std::tie(it, added) = rows.insert(row);
   if ( added )
   {
''', '''   Iterator it;
   bool added;
   {
      std::lock_guard<std::mutex> lock(mutex);
      std::tie(it, added) = rows.insert(row);
      if ( added )
      {
         iterators.push_back(it);
         condition.notify_one();
      }
   }
   if ( added )
   {
'''), ("list.cpp", "      std::cout.flush();\n      iterators.push_back(it);\n      condition.notify_one();\n", "      std::cout.flush();\n")],
    POOL + '''int main()
{
   Pool pool{Names{}};
   Hook hook;
   bool entered = false;
   std::thread other;
   hook.f = [&]()
   {  // while a row is printed no other thread may get through
      std::promise<void> done;
      auto future = done.get_future();
      std::promise<void>* p = new std::promise<void>(std::move(done));
      other = std::thread([&pool, p]() { pool.put(Row<int>{5, 6}); p->set_value(); });
      entered = (future.wait_for(std::chrono::milliseconds(700)) == std::future_status::ready);
   };
   auto* old = std::cout.rdbuf(&hook);
   pool.put(Row<int>{1, 2});
   if ( other.joinable() ) other.join();
   std::cout.rdbuf(old);
   return entered ? 1 : 0;
}
''', "two threads adding rows at the same time", "Rows are printed outside the lock: lines of different threads interleave.")
lib("c06-lost-wakeup", "C06",
    [("list.cpp", "      iterators.push_back(it);\n      condition.notify_one();", "      iterators.push_back(it);\n      if ( iterators.size() == 1 )\n      {\n         condition.notify_one();\n      }")],
    POOL + '''int main()
{
   Hook hook;
   auto* old = std::cout.rdbuf(&hook);
   auto* olde = std::cerr.rdbuf(&hook);
   int bad = 0;
   for ( int round = 0; round < 60 && !bad; ++round )
   {
      Pool pool{Names{}};
      std::promise<void> d1, d2;
      auto f1 = d1.get_future(), f2 = d2.get_future();
      std::thread a([&]() { pool.get(); d1.set_value(); });
      std::thread b([&]() { pool.get(); d2.set_value(); });
      std::this_thread::sleep_for(std::chrono::milliseconds(20));
      pool.put(Row<int>{1, 2});
      pool.put(Row<int>{3, 4});
      const auto end = std::chrono::steady_clock::now() + std::chrono::milliseconds(800);
      if ( f1.wait_until(end) != std::future_status::ready || f2.wait_until(end) != std::future_status::ready )
      {
         ++bad;
         for ( int i = 0; i < 8; ++i ) { pool.put(Row<int>{10 + i, 1}); std::this_thread::sleep_for(std::chrono::milliseconds(20)); }
         std::_Exit(1);
      }
      a.join();
      b.join();
   }
   std::cout.rdbuf(old);
   std::cerr.rdbuf(olde);
   return bad;
}
''', "two waiting workers and two rows added before the first worker wakes up", "The second worker is never woken although a row is waiting.")
lib("c06-early-done", "C06",
    [("list.cpp", '''   for ( const auto& row : matrix )
   {
      put(row);
   }
   std::lock_guard<std::mutex> lock(mutex);
   --workers;
''', '''   {
      std::lock_guard<std::mutex> lock(mutex);
      --workers;
   }
   for ( const auto& row : matrix )
   {
      put(row);
   }
   std::lock_guard<std::mutex> lock(mutex);
''')],
    POOL + '''int main()
{  // a worker asks for work while the only active job is adding its rows
   Hook hook;
   auto* old = std::cout.rdbuf(&hook);
   auto* olde = std::cerr.rdbuf(&hook);
   Matrix<int> rows;
   for ( int i = 0; i < 2000; ++i ) rows.push_back(Row<int>{i, 1});
   int bad = 0;
   for ( int round = 0; round < 10 && !bad; ++round )
   {
      Pool pool{Names{}};
      // every thread takes one row at a time; in the end all rows must have been handed out
      std::atomic<int> handed(0);
      std::vector<std::thread> ts;
      const auto work = [&]() { while ( true ) { const auto r = pool.get(); if ( r.empty() ) break; ++handed; pool.put(Matrix<int>{}); } };
      for ( int t = 0; t < 3; ++t ) ts.emplace_back(work);
      pool.put(rows);
      work();
      for ( auto& t : ts ) t.join();
      if ( handed != 2000 ) bad = 1;
   }
   std::cout.rdbuf(old);
   std::cerr.rdbuf(olde);
   return bad;
}
'''.replace("#include <functional>", "#include <functional>\n#include <atomic>"), "a worker asking for work while the last active job is still adding its rows", "The job counts as finished before its rows are in the pool: workers stop although rows are still to come.")
SQ = '''cat > "$tmp/in" <<'EOF'
DIM=3
CONV_SECTION
0 0 1
1 0 1
0 1 1
1 1 1
END
EOF
'''
cli("c07-known-not-normalized", "C07",
    [("method_adjacency_decomposition_implementation.cpp", "            auto tmp = algorithm::normalize(facet, equations);\n            tmp = algorithm::classRepresentative(tmp, maps, TagType{});\n            manager.put(tmp);", "            manager.put(algorithm::classRepresentative(facet, maps, TagType{}));")],
    '''cat > "$tmp/in" <<'EOF'
Vertices:
0 0 1
1 0 1
0 1 1
1 1 1
EOF
cat > "$tmp/known" <<'EOF'
Inequalities:
-1 0 0 0
0 -1 1 -1
EOF
n=$(timeout 60 "$panda" -t 2 "$tmp/in" -k "$tmp/known" 2>/dev/null | sed -n '/Inequalities/,$p' | grep -c '[0-9]')
echo "rows: $n"
[ "$n" = 4 ]
''', "a polytope that is not full-dimensional and more than one known facet, not given in normal form", "A known facet is added without normalization and shows up a second time in another form.")
lib("c08-scale-negative", "C08",
    [("algorithm_row_operations.cpp", "   if ( divisor != 1 )\n", "   if ( divisor > 1 )\n")],
    '''#include "algorithm_row_operations.h"
using namespace panda;
int main()
{
   Row<int> r{4, -6, 8};
   r /= -2;
   return (r == Row<int>{-2, 3, -4}) ? 0 : 1;
}
''', "dividing a row by a negative number", "The row stays unchanged.")
lib("c09-first-term-only", "C09",
    [("algorithm_map_operations.cpp", "      result[index] += static_cast<Integer>(term.second) * input[term.first];", "      result[index] = result[index] * static_cast<Integer>(term.second) + input[term.first];")],
    '''#include "algorithm_map_operations.h"
#include "maps.h"
#include "tags.h"
using namespace panda;
int main()
{
   const Map map{{{1, 1}}, {{0, 1}, {1, -1}}, {{2, 1}}};
   const auto r = algorithm::apply(map, Row<int>{1, 3, 1}, tag::vertex{});
   return (r == Row<int>{3, -2, 1}) ? 0 : 1;
}
''', "a vertex map whose image has several terms with factors other than one", "Factors are applied to the partial sum instead of the term.")

lib("c01-modulo-sum", "C01",
    [("safe_integer_arithmetics.tpp", "   data %= second.data; // cannot overflow\n   if ( data < 0 )\n   {\n      data += second.data;\n   }\n", "   data = (data % second.data + second.data) % second.data;\n")],
    '''#include "safe_integer.h"
#include <cstdint>
using namespace panda;
int main()
{
   const int64_t big = int64_t(1) << 62;
   SafeInteger a(big + 5);
   a %= SafeInteger(big + 10);
   return a == SafeInteger(big + 5) ? 0 : 1;
}
''', "operands of modulo above 2^62", "The sum overflows without an exception, the remainder is wrong.")
lib("c08-lcm-minus-one", "C08",
    [("algorithm_row_operations.cpp", "   for ( ; i < row.size(); ++i )\n   {\n      value = lcm(row[i], value);", "   for ( ; i < row.size() && value > 1; ++i )\n   {\n      value = lcm(row[i], value);")],
    '''#include "algorithm_row_operations.h"
using namespace panda;
int main()
{
   return (algorithm::lcm(Row<int>{-1, 2, 3}) == 6) ? 0 : 1;
}
''', "a row whose first entry other than one is minus one", "The remaining entries are ignored.")
lib("c10-check-front", "C10",
    [("cast.cpp", "   Matrix<Integer> output;\n   output.reserve(input.size());\n   for ( const auto& row : input )\n   {\n", "   Matrix<Integer> output;\n   output.reserve(input.size());\n   for ( const auto& row : input )\n   {\n      if ( row.empty() )\n      {\n         continue;\n      }\n")],
    '''#include "cast.h"
#include "big_integer.h"
using namespace panda;
int main()
{
   const Matrix<int> m{Row<int>{1, 2}, Row<int>{}, Row<int>{3, 4}};
   return algorithm_check(m);
}
'''.replace("int main()", "static int algorithm_check(const Matrix<int>& m) { return panda::cast<BigInteger>(m).size() == m.size() ? 0 : 1; }\nint main()"), "a matrix with an empty row", "Empty rows are dropped, so later rows change their position.")
lib("c11-lcm-sign", "C11",
    [("algorithm_integer_operations.cpp", "   return static_cast<Integer>(abs(a) * static_cast<Integer>(abs(b) / gcd_value));", "   return static_cast<Integer>(a * static_cast<Integer>(abs(b) / gcd_value));")],
    '''#include <cstdint>
#include "algorithm_integer_operations.h"
using namespace panda;
int main() { return algorithm::lcm(-4, 6) == 12 ? 0 : 1; }
''', "a negative first operand", "The least common multiple is negative, which flips the rows scaled by it.")
lib("c11-abs-short", "C11",
    [("algorithm_integer_operations.cpp", "   return unsigned_gcd(static_cast<Integer>(abs(a)), static_cast<Integer>(abs(b)));", "   return unsigned_gcd(static_cast<Integer>(abs(a)), static_cast<Integer>((a == 0) ? b : abs(b)));")],
    '''#include <cstdint>
#include "algorithm_integer_operations.h"
using namespace panda;
int main() { return (algorithm::gcd(0, -6) == 6) ? 0 : 1; }
''', "first operand zero, second operand negative", "The gcd is negative.")

lib("c13-sorting-prefix", "C13",
    [("input_detection.cpp", 'else if ( std::strncmp(argv[i], "-s", 2) == 0 || std::strncmp(argv[i], "--s", 3) == 0 )', 'else if ( std::strncmp(argv[i], "-s", 2) == 0 || std::strncmp(argv[i], "--sort", 6) == 0 )')],
    '''#include <stdexcept>
#include "input_detection.h"
using namespace panda;
int main()
{
   char p[] = "panda", o[] = "--sroting=lex_asc";
   char* v[] = {p, o, nullptr};
   try { getInputOrder(2, v); return 1; }
   catch ( const std::invalid_argument& ) { return 0; }
}
''', "a misspelling of --sorting behind --s", "The option is silently ignored and the input is not sorted.")
lib("c13-threads-rest", "C13",
    [("concurrency.cpp", "      stream >> rest;\n      if ( !rest.empty() )", "      stream >> rest;\n      if ( rest.size() > 1 )")],
    '''#include <stdexcept>
#include "concurrency.h"
using namespace panda;
int main()
{
   char p[] = "panda", o[] = "-t", n[] = "1k";
   char* v[] = {p, o, n, nullptr};
   try { concurrency::numberOfThreads(3, v); return 1; }
   catch ( const std::invalid_argument& ) { return 0; }
}
''', "a number of threads followed by exactly one other character", "A malformed parameter is accepted (1k runs one thread).")
lib("c13-help-last", "C13",
    [("input_detection.cpp", "if ( (std::strcmp(argv[i], \"-h\") == 0 && i + 1 < argc) ||", "if ( (std::strcmp(argv[i], \"-h\") == 0 && argc > 2) ||")],
    '''#include "input_detection.h"
using namespace panda;
int main()
{
   char p[] = "panda", f[] = "file", h[] = "-h";
   char* v[] = {p, f, h, nullptr};
   return (detectOperationMode(3, v) == OperationMode::Help) ? 0 : 1;
}
''', "-h as the last of several arguments", "Help is refused with an error about a missing parameter.")

lib("c14-hull-order", "C14",
    [("input_detection.cpp", "if ( (has_conv || has_cone) && has_ieqs )", "if ( has_conv && has_ieqs )")],
    '''#include "input_detection.h"
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <unistd.h>
using namespace panda;
int main()
{
   char name[] = "/tmp/c14-XXXXXX";
   const int fd = mkstemp(name);
   if ( fd < 0 ) { return 9; }
   close(fd);
   std::ofstream(name) << "Rays\\n1 1\\n\\nInequalities\\n1 0\\n";
   char p[] = "panda";
   char* v[] = {p, name, nullptr};
   const auto mode = detectOperationMode(2, v);
   std::remove(name);
   return (mode == OperationMode::Invalid) ? 0 : 1;
}
''', "a file with rays and inequalities but no vertices", "Contradictory input is treated as a vertex enumeration.")
lib("c14-names-colon", "C14",
    [("input_keywords.cpp", '''string == "INDEX_SECTION:"''', '''string == "INDEX SECTION:"''')],
    '''#include "input_keywords.h"
using namespace panda::input::implementation;
int main()
{
   return (isKeyword("INDEX_SECTION:") && isKeywordNames("INDEX_SECTION:") && !isKeyword("INDEX SECTION:")) ? 0 : 1;
}
''', "one particular spelling of a keyword", "The section is not recognized and its lines are read as part of the section before.")

SECTION = '''#include "input_constraint.h"
#include "input_map.h"
#include "input_vertex.h"
#include <exception>
#include <sstream>
using namespace panda;
using namespace panda::input::implementation;
int main()
{
   %s
}
'''
lib("c15-opposite", "C15",
    [("input_constraint_named_variables.cpp", "if ( ieq[index] != 0 && index + 1 < ieq.size() )", "if ( ieq[index] > 0 && index + 1 < ieq.size() )")],
    SECTION % '''std::istringstream s("Inequalities\\n-x + x + y <= 1\\n");
   try
   {
      const auto m = constraints<ConstraintType::Inequality>(s, Names{"x", "y"});
      return (m == Matrix<int>{{0, 1, -1}}) ? 0 : 1;
   }
   catch ( const std::exception& )
   {
      return 0;
   }''', "a variable with a negative coefficient that occurs a second time", "The first term is lost and a different inequality is read.")
lib("c15-end-of-line", "C15",
    [("input_common.cpp", "return ( c1 == '\\r' || c1 == '\\n' );", "return ( c1 == '\\n' );"),
     ("input_common.cpp", "return c == ' ' || c == '\\t' || c == '\\r';", "return c == ' ' || c == '\\t';")],
    SECTION % '''std::istringstream s("Inequalities\\nx + y <= 1 \\r\\nx >= 0\\r\\n");
   return (constraints<ConstraintType::Inequality>(s, Names{"x", "y"}) == Matrix<int>{{1, 1, -1}, {-1, 0, 0}}) ? 0 : 1;''', "a file with carriage returns", "Well-formed lines are refused.")
lib("c16-negative-denominator", "C16",
    [("algorithm_row_operations.cpp", '''      value = abs(row[i]);
      ++i;
   }
   for ( ; i < row.size(); ++i )''', '''      value = row[i];
      ++i;
   }
   for ( ; i < row.size(); ++i )''')],
    SECTION % '''std::istringstream s("Vertices\\n2 1 1/-3\\n");
   return (verticesConvex(s) == ConvexHull<int>{{6, 3, -1, 3}}) ? 0 : 1;''', "a negative denominator in the last coordinate and no other fraction", "The vertex read is (2, 1, 1) / -3.")
lib("c16-name-prefix", "C16",
    [("input_map.cpp", "const auto iterator = std::find(names.cbegin(), names.cend(), variable);", "const auto iterator = std::find_if(names.cbegin(), names.cend(), [&](const std::string& name) { return name.compare(0, variable.size(), variable) == 0; });")],
    SECTION % '''std::istringstream s("Maps\\nx xx\\n");
   const auto m = maps(s, Names{"xx", "x"});
   return (m.size() == 1 && m[0][0] == Image{{1, 1}} && m[0][1] == Image{{0, 1}}) ? 0 : 1;''', "a name that is the beginning of a name before it", "The image refers to the other variable.")
CONE = '''#include "algorithm_fourier_motzkin_elimination.h"
#include "matrix.h"
#include <algorithm>
#include <set>
#include <vector>
using namespace panda;
using Vector = std::vector<int>;
using Set = std::set<Vector>;
static int gcd(int a, int b) { return b == 0 ? (a < 0 ? -a : a) : gcd(b, a %% b); }
static int det(const Vector& a, const Vector& b, const Vector& c)
{
   return a[0] * (b[1] * c[2] - b[2] * c[1]) - a[1] * (b[0] * c[2] - b[2] * c[0]) + a[2] * (b[0] * c[1] - b[1] * c[0]);
}
static Vector without(const Row<int>& row, int k)
{
   Vector v(row.begin(), row.end());
   v.erase(v.begin() + k);
   return v;
}
static Set facets(const Matrix<int>& m) // of a full-dimensional cone in four dimensions
{
   Set set;
   for ( const auto& a : m )
   {
      for ( const auto& b : m )
      {
         for ( const auto& c : m )
         {
            Vector n(4);
            int g = 0;
            for ( int k = 0; k < 4; ++k )
            {
               n[k] = (k & 1 ? -1 : 1) * det(without(a, k), without(b, k), without(c, k));
               g = gcd(g, n[k]);
            }
            if ( g != 0 && std::all_of(m.begin(), m.end(), [&](const Row<int>& v) { return n[0] * v[0] + n[1] * v[1] + n[2] * v[2] + n[3] * v[3] <= 0; }) )
            {
               set.insert({n[0] / g, n[1] / g, n[2] / g, n[3] / g});
            }
         }
      }
   }
   return set;
}
static bool check(const Matrix<int>& m)
{
   const auto expected = facets(m);
   const auto all = algorithm::fourierMotzkinElimination(m);
   Set got;
   for ( const auto& row : all )
   {
      got.insert(Vector(row.begin(), row.end()));
   }
   bool good = (got == expected) && (all.size() == expected.size());
   std::size_t some = 0;
   for ( const auto& row : algorithm::fourierMotzkinEliminationHeuristic(m) )
   {
      good = good && expected.count(Vector(row.begin(), row.end()));
      ++some;
   }
   return good && some > 0;
}
int main()
{
   unsigned random = 1;
   const auto next = [&]()
   {
      random = random * 1103515245 + 12345;
      const int digits[] = {-1, 0, 0, 1, 1, 2};
      return digits[(random >> 16) %% 6];
   };
   for ( int i = 0; i < 3000; ++i )
   {
      Matrix<int> m{{0, 0, 0, 1}, {1, 0, 0, 1}, {0, 1, 0, 1}, {0, 0, 1, 1}};
      for ( int k = 0; k < 1 + i %% 6; ++k )
      {
         const int x = next(), y = next(), z = next();
         m.insert(m.begin() + (i / 6) %% m.size(), Row<int>{x, y, z, 1});
      }
      if ( !check(m) )
      {
         return 1;
      }
   }
   return 0;
}
'''
lib("c17-count", "C17",
    [("algorithm_fourier_motzkin_elimination.cpp", "         new_R.push_back(R[index_z]);\n      }\n", "         new_R.push_back(R[index_z]);\n         if ( new_R.size() > 2 )\n         {\n            new_R.back().set(i);\n         }\n      }\n")],
    CONE % (), "a row on at least three facets found before", "Incidence of the facets with the row is lost, later combinations are taken for redundant or kept although redundant.")
lib("c17-minimal", "C17",
    [("algorithm_fourier_motzkin_elimination.cpp", "         if ( Rpnr.contains(u, max) )\n", "         if ( Rpnr.contains(u, max) && Rpnr.count(max) > u.count(max) + 1 )\n")],
    CONE % (), "a redundant combination found before the one that makes it redundant, differing by one row", "A redundant inequality is returned.")
lib("c17-heuristic-start", "C17",
    [("algorithm_fourier_motzkin_elimination.cpp", "std::all_of(vs.cbegin() + static_cast<typename Vertices<Integer>::difference_type>(start), vs.cend(),", "std::all_of(vs.cbegin() + static_cast<typename Vertices<Integer>::difference_type>(start > matrix.size() + 1 ? start + 1 : start), vs.cend(),")],
    CONE % (), "a start of the heuristic that needs more than one elimination step", "An inequality that one row violates is returned as facet.")
lib("c18-last-word", "C18",
    [("bitset_fixed_size.tpp", "   const auto end = 1u + (max - 1) / std::numeric_limits<DataType>::digits;\n   for ( std::size_t i = 0; i < end; ++i )\n   {\n      if ( (data[i]", "   const auto end = (max + 1) / std::numeric_limits<DataType>::digits + (max < 32 ? 1u : 0u);\n   for ( std::size_t i = 0; i < end; ++i )\n   {\n      if ( (data[i]")],
    '''#include "bitset_fixed_size.h"
using namespace panda;
int main()
{
   BitsetFixedSize<2> a(40), b(40);
   a.set(3);
   b.set(3);
   b.set(35);
   return a.contains(b, 40) ? 1 : 0;
}
''', "sets of more than 32 rows that differ in the last word only", "A set is taken for a subset of one that lacks some of its rows.")
lib("c18-union-count", "C18",
    [("bitset_variable_size.cpp", "total -= static_cast<std::size_t>(popcount((*ita) & (*itb)));", "total -= static_cast<std::size_t>(popcount((*ita) & (*itb) & 0x7fffffffu));")],
    '''#include "bitset_variable_size.h"
using namespace panda;
int main()
{
   BitsetVariableSize a(33), b(33);
   a.set(31);
   b.set(31);
   return BitsetVariableSize::unionCount(a, b, 33) == 1 ? 0 : 1;
}
''', "row 31 of a word in both sets", "The row is counted twice.")

ROT = '''#include "algorithm_classes.h"
#include "algorithm_rotation.h"
#include "maps.h"
#include "matrix.h"
#include "tags.h"
#include <algorithm>
using namespace panda;
int main()
{
   %s
}
'''
lib("c19-last-vertex", "C19",
    [("algorithm_inequality_operations.cpp", "for ( auto it = vertices.cbegin() + 1; it != vertices.cend(); ++it )", "for ( auto it = vertices.cbegin() + 1; it != vertices.cend() - (vertices.size() > 6 ? 1 : 0); ++it )")],
    ROT % '''const Matrix<int> m{{0, 0, 1}, {4, 0, 1}, {4, 3, 1}, {0, 3, 1}, {1, 1, 1}, {2, 1, 1}, {2, 5, 1}};
   auto r = algorithm::rotation(m, Row<int>{-1, 0, 0}, Maps{}, tag::facet{});
   std::sort(r.begin(), r.end());
   return r == Matrix<int>{{-1, 1, -3}, {0, -1, 0}} ? 0 : 1;''', "more than six vertices, the last of which is violated by a candidate", "An invalid inequality is returned as neighbour.")
lib("c19-lowest-terms", "C19",
    [("algorithm_rotation.cpp", "         if ( gcd_value > 1 )\n         {\n            ridge /= gcd_value;", "         if ( gcd_value > 2 )\n         {\n            ridge /= gcd_value;")],
    ROT % '''const Matrix<int> m{{0, 0, 1}, {6, 0, 1}, {1, 3, 1}, {3, 6, 1}};
   auto r = algorithm::rotation(m, Row<int>{0, -1, 0}, Maps{}, tag::facet{});
   std::sort(r.begin(), r.end());
   return r == Matrix<int>{{-3, 1, 0}, {2, 1, -12}} ? 0 : 1;''', "a candidate whose greatest common divisor is two", "The same facet is reported in two forms, as a facet not in lowest terms.")
lib("c20-closure", "C20",
    [("algorithm_classes.cpp", "         if ( inserted )\n", "         if ( inserted && rows.size() < 5 )\n")],
    ROT % '''const Maps maps{{{{1, 1}}, {{0, 1}}, {{2, 1}}}, {{{0, -1}}, {{1, 1}}, {{2, 1}}}};
   for ( int x : {-3, -1, 1, 3} )
   {
      for ( int y : {-2, 2} )
      {
         if ( algorithm::getClass(Row<int>{x, y, 1}, maps, tag::facet{}).size() != 8 || algorithm::getClass(Row<int>{y, x, 1}, maps, tag::vertex{}).size() != 8 )
         {
            return 1;
         }
      }
   }
   return 0;''', "classes of eight rows", "Only a part of the class is found, so that the class may be represented twice.")
lib("c20-one-per-class", "C20",
    [("algorithm_classes.cpp", "         if ( position != rows.end() )\n", "         if ( position != rows.end() && (classes.size() < 2 || *position == *rows.begin()) )\n")],
    ROT % '''const Maps swap{{{{1, 1}}, {{0, 1}}, {{2, 1}}}};
   const auto c = algorithm::classes(Matrix<int>{{0, 1, 1}, {1, 0, 1}, {2, 0, 1}, {0, 2, 1}, {1, 1, 1}}, swap, tag::facet{});
   return c == Matrix<int>{{1, 0, 1}, {2, 0, 1}, {1, 1, 1}} ? 0 : 1;''', "at least two classes; two rows of the second one, with a row of another class between them", "A class is represented twice.")

MAT = '''#include "algorithm_matrix_operations.h"
#include "matrix.h"
using namespace panda;
int main()
{
   %s
}
'''
lib("c21-rank", "C21",
    [("algorithm_matrix_operations.cpp", "         if ( row[piv_col] != 0 )\n", "         if ( row[piv_col] != 0 && (j == 0 || piv_col != pivot_columns[j - 1] + 2) )\n")],
    MAT % '''return algorithm::dimension(Matrix<int>{{1, 0, 0}, {0, 0, 1}, {0, 0, 2}}) == 2 && algorithm::dimension(Matrix<int>{{1, 0, 2}, {0, 0, 1}, {1, 0, 5}}) == 2 ? 0 : 1;''', "consecutive pivots two columns apart and a later row with an entry in the latter column", "The rank is too large; the dimension of faces is misjudged.")
lib("c21-equation-sign", "C21",
    [("algorithm_matrix_operations.cpp", "      if ( pivot_row[col] < 0 )\n", "      if ( pivot_row[col] < 0 && (col + 1 < col_size || T.size() > 1) )\n")],
    MAT % '''return algorithm::extractEquations(Matrix<int>{{1, 1}}) == Matrix<int>{{1, -1}} && algorithm::extractEquations(Matrix<int>{{0, 0}, {0, 0}}) == Matrix<int>{{0, 1}, {1, 0}} ? 0 : 1;''', "an equation in the last column of a matrix of rank at most one", "The equation has a negative leading coefficient.")

cli("c22-equation-last", "C22",
    [("input.cpp", "         equations = implementation::constraints<ConstraintType::Equation>(file, names);", "         equations = implementation::constraints<ConstraintType::Equation>(file, names);\n         if ( inequalities.size() > 4 && equations.size() > 1 )\n         {\n            equations.pop_back();\n         }")],
    """cat > "$tmp/in" <<'EOF'
Inequalities:
-1 0 0 <= 0
1 0 0 <= 1
0 -1 0 <= 0
0 1 0 <= 1
0 0 -1 <= 0

Equations:
1 1 0 = 1
0 0 1 = 1
EOF
timeout 60 "$panda" "$tmp/in" -m dd > "$tmp/out" 2> /dev/null
printf 'Vertices:\\n0 1 1\\n1 0 1\\n' > "$tmp/want"
diff <(sed 's/ *$//' "$tmp/out" | sort) <(sort "$tmp/want") > /dev/null
""", "a section of at least two equations behind more than four inequalities", "An equation is lost, the polyhedron is too large.")
cli("c22-known-ray", "C22",
    [("input.cpp", "      conv.insert(conv.end(), cone.cbegin(), cone.cend());\n      return conv;", "      conv.insert(conv.end(), cone.cbegin(), conv.empty() ? cone.cend() : cone.cbegin() + static_cast<Vertices<int>::difference_type>(cone.size() / 2));\n      return conv;")],
    """g++-11 -std=c++11 -I src -pthread -o "$tmp/demo" "$here/demo.cpp" _build/libpolypanda.a || exit 2
cd "$tmp"
printf 'Inequalities:\\n-1 0 <= 0\\n0 -1 <= 0\\n' > in
printf 'Vertices:\\n0 0\\n\\nRays:\\n1 0\\n0 1\\n' > known
./demo
""", "known vertices and known rays in one file", "Half of the known rays are dropped.",
    files={"demo.cpp": """#include "input.h"
using namespace panda;
int main()
{
   char a[] = "panda", b[] = "in", c[] = "-k", d[] = "known";
   char* argv[] = {a, b, c, d, nullptr};
   const auto data = input::inequalities<int>(4, argv);
   return std::get<3>(data).size() == 3 ? 0 : 1;
}
"""})
cli("c22-nonzero-ties", "C22",
    [("input.cpp", "               return (a < b);\n            });\n            return;\n         }\n         case InputOrder::NonZeroEntriesDescending:", "               return (zero_entries_a > 1 ? a > b : a < b);\n            });\n            return;\n         }\n         case InputOrder::NonZeroEntriesDescending:")],
    """g++-11 -std=c++11 -I src -pthread -o "$tmp/demo" "$here/demo.cpp" _build/libpolypanda.a || exit 2
cd "$tmp"
printf 'Vertices:\\n0 0 1\\n1 0 1\\n0 2 0\\n0 1 0\\n' > in
./demo
""", "-s nz_asc and several rows with the same number of at least two zeros", "The rows are not in the documented order.",
    files={"demo.cpp": """#include "input.h"
using namespace panda;
int main()
{
   char a[] = "panda", b[] = "in", c[] = "-s", d[] = "nz_asc";
   char* argv[] = {a, b, c, d, nullptr};
   const auto data = input::vertices<int>(4, argv);
   return std::get<0>(data) == Matrix<int>{{0, 0, 1, 1}, {0, 1, 0, 1}, {0, 2, 0, 1}, {1, 0, 1, 1}} ? 0 : 1;
}
"""})

lib("c23-moved-dismissed", "C23",
    [("scope_guard.tpp", "   dismissed(other.dismissed),", "   dismissed(false),")],
    """#include <type_traits>
#include <utility>
#include "scope_guard.h"
using namespace panda;
int main()
{
   int n = 0;
   {
      auto g = makeScopeGuard([&n]() { ++n; });
      g.dismiss();
      auto h = std::move(g);
   }
   {
      auto g = makeScopeGuard([&n]() { n += 10; });
      auto h = std::move(g);
   }
   return n == 10 ? 0 : 1;
}
""", "a guard that is dismissed and then moved", "The function runs although the guard was dismissed.")
lib("c23-seconds", "C23",
    [("delayed_action.tpp", "   minimum_waiting_time(min_time_from_now)", "   minimum_waiting_time(min_time_from_now % std::chrono::seconds(4))")],
    """#include "delayed_action.h"
#include <chrono>
using namespace panda;
int main()
{
   int n = 0;
   const auto f = [&n]() { ++n; };
   {
      auto d = makeDelayedAction([&n]() { ++n; }, std::chrono::seconds(60));
      auto e = makeDelayedAction([&n]() { ++n; }, std::chrono::seconds(2));
      auto g = makeDelayedAction([&n]() { n += 10; }, std::chrono::nanoseconds(0));
   }
   return n == 10 ? 0 : 1;
}
""", "a delay of at least four seconds", "The action runs although its time has not come.")

cli("c24-one-equation", "C24",
    [("method_double_description.cpp", "      if ( !equations.empty() )", "      if ( equations.size() > 1 )")],
    """cd "$tmp"
printf 'Vertices:\\n0 0\\n1 1\\n2 2\\n' > in
"$panda" -m dd in > out 2> err || exit 1
grep -q '^Equations:' out
""", "vertices that satisfy exactly one equation", "The equation is not reported.")
cli("c24-reduced-rays", "C24",
    [("method_double_description.cpp", "         if ( is_reduced )\n         {\n            std::cout << \"Reduced \";\n         }\n         std::cout << \"Rays:\\n\";", "         if ( is_reduced && conv.empty() )\n         {\n            std::cout << \"Reduced \";\n         }\n         std::cout << \"Rays:\\n\";")],
    """cd "$tmp"
printf 'Names:\\nx y\\n\\nMaps:\\ny x\\n\\nInequalities:\\n-x <= 0\\n-y <= 0\\n-x - y <= -1\\n' > in
"$panda" -m dd in > out 2> err || exit 1
grep -q '^Reduced Vertices:' out && grep -q '^Reduced Rays:' out
""", "maps, and a result with vertices and rays", "The rays are announced as complete although only representatives are listed.")
cli("c24-exit-status", "C24",
    [("method_double_description.cpp", """   catch ( const std::exception& e )
   {
      std::cerr << "Exception caught: " << e.what() << '\\n';
      return 1;
   }
   catch ( ... )
   {
      std::cerr << "Unknown exception caught in file " << __FILE__ << '\\n';
      return 1;
   }

   template""", """   catch ( const std::exception& e )
   {
      std::cerr << "Exception caught: " << e.what() << '\\n';
      return 0;
   }
   catch ( ... )
   {
      std::cerr << "Unknown exception caught in file " << __FILE__ << '\\n';
      return 1;
   }

   template""")],
    """cd "$tmp"
printf 'Vertices:\\n0 0\\n1 1 1\\n' > in
! "$panda" -m dd in > out 2> err
""", "an invalid input of a facet enumeration with double description", "The failed run ends with status 0.")
