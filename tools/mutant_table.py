MUTANTS = []


def brk(checks, *reps):
    MUTANTS.append((checks, "break", [reps] if isinstance(reps[0], str) else list(reps)))


def keep(checks, *reps):
    MUTANTS.append((checks, "keep", [reps] if isinstance(reps[0], str) else list(reps)))


L = "list.cpp"
brk("C05", L, "   std::lock_guard<std::mutex> lock(mutex);\n   Iterator it;", "   Iterator it;")
brk("C05", L, "   const std::lock_guard<std::mutex> lock(mutex);\n   return workers", "   return workers")
brk("C05", L, "   std::lock_guard<std::mutex> lock(mutex);\n   --workers;", "   --workers;\n   std::lock_guard<std::mutex> lock(mutex);")
brk("C05", L, "   const auto row = *iterators.front();\n", "   lock.unlock();\n   const auto row = *iterators.front();\n   lock.lock();\n")
brk("C05", L, "      std::unique_lock<std::mutex> lock(mutex);\n      const auto it", "      const auto it")
brk("C05 C06", L, "   std::lock_guard<std::mutex> lock(mutex);\n   Iterator it;\n   bool added;\n   std::tie(it, added) = rows.insert(row);\n   if", "   Iterator it;\n   bool added;\n   {std::lock_guard<std::mutex> lock(mutex);\n   std::tie(it, added) = rows.insert(row); if (added) iterators.push_back(it);}\n   if")
brk("C06", L, "      iterators.push_back(it);\n      condition.notify_one();", "      condition.notify_one();")
brk("C06", L, "      iterators.push_back(it);\n      condition.notify_one();", "      iterators.push_back(it);")
brk("C06", L, "      condition.notify_all();", "      condition.notify_one();")
brk("C06", L, "   if ( added )\n", "   if ( added || rows.size() > 0 )\n")
brk("C06", L, "workers == 0 && iterators.empty()", "workers == 0 || iterators.empty()")
brk("C06", L, "workers == 0 && iterators.empty()", "workers <= 1 && iterators.empty()")
brk("C06", L, "workers == 0 && iterators.empty()", "workers == 0")
brk("C06", L, "   ++workers;\n", "")
brk("C06", L, "   --workers;\n", "")
brk("C06", L, "workers(1)", "workers(0)")
brk("C06", L, "   if ( !row.empty() )\n   {\n      iterators.erase", "   {\n      iterators.erase")
brk("C06", L, "iterators.erase(iterators.begin())", "iterators.pop_back()")
brk("C06", L, "iterators.erase(iterators.begin())", "iterators.clear()")
brk("C06", L, "   for ( const auto& row : matrix )\n   {\n      put(row);\n   }\n   std::lock_guard<std::mutex> lock(mutex);\n   --workers;", "   {std::lock_guard<std::mutex> lock(mutex);\n   --workers;}\n   for ( const auto& row : matrix )\n   {\n      put(row);\n   }")
brk("C06", L, "   std::lock_guard<std::mutex> lock(mutex);\n   --workers;", "   if (matrix.empty()) return;\n   std::lock_guard<std::mutex> lock(mutex);\n   --workers;")
brk("C06", L, "[&](){ return !iterators.empty(); }", "[&](){ return !iterators.empty() || workers > 0; }")
brk("C06", L, "condition.wait(lock, [&](){ return !iterators.empty(); });", "if (iterators.empty()) condition.wait(lock);")
brk("C06", L, "   ++workers;\n   const auto row = *iterators.front();", "   const auto row = *iterators.front();\n   if ( iterators.size() > 1 ) ++workers;")
brk("C06", L, "         algorithm::prettyPrintln(std::cout, row, names, \"<=\");", "         if (rows.size() > 1) algorithm::prettyPrintln(std::cout, row, names, \"<=\");")
keep("C05 C06", L, "      std::cout.flush();\n      iterators.push_back(it);\n      condition.notify_one();", "      iterators.push_back(it);\n      condition.notify_one();\n      std::cout.flush();")
keep("C05 C06", L, "condition.wait(lock, [&](){ return !iterators.empty(); });", "while (iterators.empty()) { condition.wait(lock); }")
keep("C05 C06", L, "      condition.notify_one();", "      condition.notify_all();")
keep("C05 C06", L, "   ++workers;\n   const auto row = *iterators.front();\n   if ( !row.empty() )\n   {\n      iterators.erase(iterators.begin());\n   }", "   const Row<Integer> row(**iterators.begin());\n   const bool stop = row.empty();\n   if ( !stop )\n      iterators.erase(iterators.cbegin());\n   workers += 1;")
keep("C05 C06", L, "   Iterator it;\n   bool added;\n   std::tie(it, added) = rows.insert(row);\n   if ( added )\n", "   const auto p = rows.insert(row);\n   const auto it = p.first;\n   if ( p.second )\n")
keep("C05 C06", L, "   for ( const auto& row : matrix )\n   {\n      put(row);\n   }", "   for ( std::size_t i = 0; i < matrix.size(); ++i )\n   {\n      put(matrix[i]);\n   }")
keep("C05 C06", L, "   if ( empty() ) // abort\n   {\n      std::unique_lock<std::mutex> lock(mutex);\n      const auto it = rows.insert(Row<Integer>{}).first;\n      iterators.push_back(it);\n      condition.notify_all();\n   }\n   std::unique_lock<std::mutex> lock(mutex);\n", "   std::unique_lock<std::mutex> lock(mutex);\n   if ( workers == 0 && iterators.empty() ) // abort\n   {\n      const auto it = rows.insert(Row<Integer>{}).first;\n      iterators.push_back(it);\n      condition.notify_all();\n   }\n")
keep("C05 C06", L, "   Iterator it;\n   bool added;\n   std::tie(it, added) = rows.insert(row);\n   if ( added )\n", "   if ( rows.find(row) != rows.end() )\n      return;\n   const auto it = rows.insert(row).first;\n")
keep("C05 C06", L, "   Iterator it;\n   bool added;\n   std::tie(it, added) = rows.insert(row);\n   if ( added )\n", "   if ( rows.count(row) > 0 )\n      return;\n   const auto it = rows.insert(row).first;\n")

D = "method_adjacency_decomposition_implementation.cpp"
J = "joining_thread.cpp"
brk("C07", D, "         manager.put(Matrix<Integer>{tmp});", "         manager.put(tmp);")
brk("C07", D, "            manager.put(tmp);\n         }\n      });", "            manager.put(Matrix<Integer>{tmp});\n         }\n      });")
brk("C07", D, "for ( const auto& facet : known_output )\n         {\n            auto tmp = algorithm::normalize(facet, equations);\n            tmp = algorithm::classRepresentative(tmp, maps, TagType{});\n            manager.put(tmp);\n         }", "for ( const auto& facet : known_output )\n         {\n            auto tmp = algorithm::normalize(facet, equations);\n            manager.put(tmp);\n         }")
brk("C07", D, "         tmp = algorithm::classRepresentative(tmp, maps, TagType{});\n         manager.put(Matrix", "         manager.put(Matrix")
brk("C07", D, "auto tmp = algorithm::normalize(known_output.front(), equations);", "auto tmp = known_output.front();")
brk("C07", D, "for ( auto& facet : facets )", "for ( auto facet : facets )")
brk("C07", D, "i < thread_count", "i <= thread_count")
brk("C07", D, "for ( int i = 0; i < thread_count; ++i )", "for ( int i = 1; i < thread_count; ++i )")
brk("C07", D, "const auto maps = algorithm::normalize(original_maps, equations);\n         return std::make_pair(equations, maps);", "return std::make_pair(equations, original_maps);")
brk("C07", D, "if ( job.empty() )\n            {\n               break;\n            }\n            const auto jobs = algorithm::rotation(input, job, maps, tag);\n            job_manager.put(jobs);", "if ( job.empty() )\n            {\n               break;\n            }\n            const auto jobs = algorithm::rotation(input, job, maps, tag);\n            if ( !jobs.empty() )\n               job_manager.put(jobs);")
brk("C07", D, "            job_manager.put(jobs);", "            job_manager.put(jobs);\n            job_manager.put(jobs);")
brk("C07", (D, "   std::list<JoiningThread> threads;\n", ""), (D, "   JobManagerType<Integer, TagType> job_manager(names, node_count, thread_count);\n", "   std::list<JoiningThread> threads;\n   JobManagerType<Integer, TagType> job_manager(names, node_count, thread_count);\n"))
brk("C07", J, "   if ( thread.joinable() )\n   {\n      thread.join();\n   }", "   if ( thread.joinable() )\n   {\n      thread.detach();\n   }")
brk("C07", J, "   if ( thread.joinable() )\n   {\n      thread.join();\n   }", "")
brk("C07", D, "auto future = std::async(std::launch::async, [&]()\n      {\n         for ( const auto& facet : known_output )", "const auto known = known_output;\n      auto future = std::async(std::launch::async, [&]()\n      {\n         for ( const auto& facet : known )")
brk("C07", D, '      if ( !maps.empty() )\n      {\n         std::cout << "Reduced ";', '      if ( maps.empty() )\n      {\n         std::cout << "Reduced ";')
brk("C07", D, 'equations, "Vertices / Rays"', 'equations, "Inequalities"')
brk("C07", D, "algorithm::rotation(input, job, maps, tag)", "algorithm::rotation(known_output, job, maps, tag)")
brk("C07", D, "const auto& maps = std::get<1>(reduced_data);", "const auto& maps = std::get<2>(data);")
keep("C07", D, "      threads.emplace_front([&]()", "      threads.emplace_back([&]()")
keep("C07", D, "   std::list<JoiningThread> threads;", "   std::vector<JoiningThread> unused;\n   std::list<JoiningThread> threads;")
keep("C07", (D, "   std::list<JoiningThread> threads;", "   std::vector<JoiningThread> threads;"), (D, "threads.emplace_front(", "threads.emplace_back("), (D, "#include <list>", "#include <vector>"))
keep("C07", D, "   for ( int i = 0; i < thread_count; ++i )\n   {\n", "   int i = thread_count;\n   while ( i-- > 0 )\n   {\n")
keep("C07", D, "         while ( true )\n         {\n            const auto job = job_manager.get();\n            if ( job.empty() )\n            {\n               break;\n            }\n", "         for ( auto job = job_manager.get(); !job.empty(); job = job_manager.get() )\n         {\n")
keep("C07", D, "         auto tmp = algorithm::normalize(known_output.front(), equations);\n         tmp = algorithm::classRepresentative(tmp, maps, TagType{});\n         manager.put(Matrix<Integer>{tmp});", "         Matrix<Integer> first;\n         first.push_back(algorithm::classRepresentative(algorithm::normalize(known_output.front(), equations), maps, TagType{}));\n         manager.put(first);")
keep("C07", D, "         for ( auto& facet : facets )\n         {\n            facet = algorithm::classRepresentative(facet, maps, TagType{});\n         }\n", "         std::transform(facets.begin(), facets.end(), facets.begin(), [&](const Row<Integer>& f) { return algorithm::classRepresentative(f, maps, TagType{}); });\n")
keep("C07", D, '      std::cout << type_string << ":\\n";', '      std::cout << type_string;\n      std::cout << \':\' << std::endl;')
keep("C07", D, "            const auto jobs = algorithm::rotation(input, job, maps, tag);\n            job_manager.put(jobs);", "            job_manager.put(algorithm::rotation(input, job, maps, tag));")
keep("C07", D, "const Equations<Integer>& equations, const std::string& type_string)", "const Equations<Integer>& equations, const char* const type_string)")
keep("C07", J, "   if ( thread.joinable() )\n   {\n      thread.join();\n   }", "   if ( !thread.joinable() )\n      return;\n   thread.join();")
keep("C07", D, "   future.get();", "   future.wait();\n   future.get();")
keep("C07", (D, "   const auto reduced_data = reduce(job_manager, data);\n   const auto& equations = std::get<0>(reduced_data);\n   const auto& maps = std::get<1>(reduced_data);", "   Equations<Integer> equations;\n   Maps maps;\n   std::tie(equations, maps) = reduce(job_manager, data);"))
keep("C07", (D, "const auto jobs = algorithm::rotation(input, job, maps, tag);\n            job_manager.put(jobs);", "process(job_manager, input, job, maps, tag);"), (D, "template <template <typename, typename> class JobManagerType, typename Integer, typename TagType>\nvoid panda::implementation::adj", "namespace\n{\n   template <typename Pool, typename Integer, typename TagType>\n   void process(const Pool& pool, const Matrix<Integer>& input, const Row<Integer>& job, const Maps& maps, TagType tag)\n   {\n      const auto jobs = algorithm::rotation(input, job, maps, tag);\n      pool.put(jobs);\n   }\n}\n\ntemplate <template <typename, typename> class JobManagerType, typename Integer, typename TagType>\nvoid panda::implementation::adj"))

# ------------------------------------------------------------------ C08 row arithmetic
RO = "algorithm_row_operations.cpp"
brk("C08", RO, "         row -= a * eq;", "         row += a * eq;")
brk("C08", RO, "         row *= b;\n", "")
brk("C08", RO, "const auto a = row[index];", "const auto& a = row[index];")
brk("C08", RO, "[](const Integer& a) { return a != 0; }", "[](const Integer& a) { return a > 1; }")
brk("C08", RO, "      if ( row[index] != 0 )\n", "      if ( row[index] > 0 )\n")
brk("C08", RO, "   const auto gcd_value = gcd(row);\n   if ( gcd_value > 1 )\n   {\n      row /= gcd_value;\n   }\n", "")
brk("C08", RO, "const auto gcd_value = gcd(row);\n   if ( gcd_value > 1 )", "const auto gcd_value = gcd(row[0], row[1]);\n   if ( gcd_value > 1 )")
brk("C08", RO, "      for ( auto& entry : row )\n      {\n         entry *= factor;", "      for ( auto entry : row )\n      {\n         entry *= factor;")
brk("C08", RO, "   if ( factor != 1 )\n", "   if ( factor > 1 )\n")
brk("C08", RO, "   if ( divisor != 1 )\n", "   if ( divisor > 1 )\n")
brk("C08", RO, "   if ( divisor == 0 )\n", "   if ( divisor <= 0 )\n")
brk("C08", RO, "second.cbegin(), Integer(0));", "second.cbegin(), Integer(1));")
brk("C08", RO, "std::inner_product(first.cbegin(), first.cend(), second", "std::inner_product(first.cbegin(), first.cend() - 1, second")
brk("C08", RO, "first.begin(), std::minus<Integer>()", "first.begin(), std::plus<Integer>()")
brk("C08", RO, "std::transform(first.cbegin(), first.cend(), second.cbegin(), first.begin(), std::plus", "std::transform(first.cbegin(), first.cend() - 1, second.cbegin(), first.begin(), std::plus")
brk("C08", RO, "   for ( ; i < row.size() && value > 1; ++i )", "   for ( ; i + 1 < row.size() && value > 1; ++i )")
brk("C08", RO, "   for ( ; i < row.size() && row[i] == 0; ++i )", "   for ( ; i < row.size() && row[i] <= 0; ++i )")
brk("C08", RO, "      using algorithm::abs;\n      value = abs(row[i]);\n      ++i;\n   }\n   for ( ; i < row.size() && value > 1", "      using algorithm::abs;\n      value = row[i];\n      ++i;\n   }\n   for ( ; i < row.size() && value > 1")
brk("C08", RO, "      value = lcm(row[i], value);", "      value = lcm(row[i], row[i - 1]);")
brk("C08", RO, "   for ( ; i < row.size() && row[i] == 1; ++i )", "   for ( ; i < row.size() && row[i] >= 1; ++i )")
brk("C08", RO, "   for ( ; i < row.size(); ++i )\n   {\n      value = lcm", "   for ( ; i < row.size() && value > 1; ++i )\n   {\n      value = lcm")
keep("C08", RO, "         row *= b;\n         row -= a * eq;", "         row = row * b - eq * a;")
keep("C08", RO, "         row *= b;\n         row -= a * eq;", "         for ( std::size_t j = 0; j < row.size(); ++j )\n         {\n            row[j] = row[j] * b - a * eq[j];\n         }")
keep("C08", RO, "const auto non_zero_it = std::find_if(eq.cbegin(), eq.cend(), [](const Integer& a) { return a != 0; });\n      const auto index = static_cast<std::size_t>(non_zero_it - eq.cbegin());", "std::size_t index = 0;\n      while ( eq[index] == 0 )\n      {\n         ++index;\n      }")
keep("C08", RO, "   const auto gcd_value = gcd(row);\n   if ( gcd_value > 1 )\n   {\n      row /= gcd_value;\n   }\n", "   const auto gcd_value = gcd(row);\n   if ( gcd_value == 0 )\n   {\n      return row;\n   }\n   row /= gcd_value;\n")
keep("C08", RO, "   if ( factor != 1 )\n   {\n      for ( auto& entry : row )\n      {\n         entry *= factor;\n      }\n   }", "   for ( std::size_t i = row.size(); i-- > 0; )\n   {\n      row[i] = factor * row[i];\n   }")
keep("C08", RO, "   return std::inner_product(first.cbegin(), first.cend(), second.cbegin(), Integer(0));", "   Integer sum(0);\n   for ( std::size_t i = 0; i < first.size(); ++i )\n   {\n      sum += second[i] * first[i];\n   }\n   return sum;")
keep("C08", RO, "   for ( ; i < row.size() && value > 1; ++i )\n   {\n      value = gcd(row[i], value);\n   }", "   for ( ; i < row.size(); ++i )\n   {\n      value = gcd(value, row[i]);\n   }")
keep("C08", RO, "   first -= second;\n   return first;", "   for ( std::size_t i = 0; i < first.size(); ++i )\n      first[i] -= second[i];\n   return first;")
keep("C08", RO, "const auto a = row[index];\n         const auto b = eq[index];\n         row *= b;\n         row -= a * eq;", "const auto g = gcd(row[index], eq[index]);\n         const Integer a = row[index] / g;\n         const Integer b = eq[index] / g;\n         row *= b;\n         row -= a * eq;")

# ------------------------------------------------------------------ C09 maps
MO = "algorithm_map_operations.cpp"
brk("C09", MO, "result[term.first] += static_cast<Integer>(term.second) * input[index];", "result[index] += static_cast<Integer>(term.second) * input[term.first];")
brk("C09", MO, "result[index] += static_cast<Integer>(term.second) * input[term.first];", "result[index] = static_cast<Integer>(term.second) * input[term.first];")
brk("C09", MO, "result[term.first] += static_cast<Integer>(term.second) * input[index];", "result[term.first] += input[index];")
brk("C09", MO, "   const auto gcd_value = gcd(result);\n   if ( gcd_value > 1 )\n   {\n      result /= gcd_value;\n   }\n", "")
brk("C09", MO, "const auto gcd_value = gcd(result);", "const auto gcd_value = gcd(row);")
brk("C09", MO, "for ( std::size_t i = 0; i < map.size(); ++i )\n   {\n      const auto& entry = map[i];", "for ( std::size_t i = 0; i + 1 < map.size(); ++i )\n   {\n      const auto& entry = map[i];")
brk("C09", MO, "if ( row.size() != map.size() )", "if ( row.size() > map.size() )")
brk("C09", MO, "if ( row.size() != map.size() )", "if ( row.size() < map.size() )")
brk("C09", MO, "new_image.push_back(std::make_pair(j, -term.second * equation[j]));", "new_image.push_back(std::make_pair(j, term.second * equation[j]));")
brk("C09", MO, "new_image.push_back(std::make_pair(j, -term.second * equation[j]));", "new_image.push_back(std::make_pair(j, -equation[j]));")
brk("C09", MO, "new_image.push_back(std::make_pair(term.first, term.second * equation[index]));", "new_image.push_back(term);")
brk("C09", MO, "for ( std::size_t j = index + 1; j < equation.size(); ++j )", "for ( std::size_t j = index + 1; j + 1 < equation.size(); ++j )")
brk("C09", MO, "for ( std::size_t j = index + 1; j < equation.size(); ++j )", "for ( std::size_t j = index; j < equation.size(); ++j )")
brk("C09", MO, "                  if ( equation[j] != 0 )\n", "                  if ( equation[j] > 0 )\n")
brk("C09", MO, "image[i].second += image[i + 1].second; // merge factors", "image[i].second = image[i + 1].second; // merge factors")
brk("C09", MO, "               if ( image[i].second == 0 )\n", "               if ( image[i].second <= 0 )\n")
brk("C09", MO, "const auto& equation = equations[i];\n", "const auto& equation = equations[0];\n")
brk("C09", MO, "      subtractEquations(map, indices, equations);\n", "")
brk("C09", MO, "         map[index].clear();", "         map[index + 1].clear();")
brk("C09", MO, "[](const Integer& a) { return a != 0; }", "[](const Integer& a) { return a > 1; }")
brk("C09", MO, "      map = normalizeMap(map, equations);\n   }\n   return maps;", "      normalizeMap(map, equations);\n   }\n   return maps;")
brk("C09", MO, "   for ( auto& map : maps )\n   {\n      map = ", "   for ( auto map : maps )\n   {\n      map = ")
keep("C09", MO, "         std::sort(image.begin(), image.end());\n", "")
keep("C09", MO, "      eliminateZeroCoefficients(map, indices);\n", "")
keep("C09", MO, "      simplify(map);\n", "")
keep("C09", MO, "   for ( std::size_t i = 0; i < map.size(); ++i )\n   {\n      const auto& entry = map[i];", "   for ( std::size_t i = map.size(); i-- > 0; )\n   {\n      const auto& entry = map[i];")
keep("C09", MO, "result[term.first] += static_cast<Integer>(term.second) * input[index];", "const auto product = input[index] * static_cast<Integer>(term.second);\n      result[term.first] = result[term.first] + product;")
keep("C09", MO, "   for ( auto& map : maps )\n   {\n      map = normalizeMap(map, equations);\n   }\n   return maps;", "   Maps result;\n   for ( const auto& map : maps )\n   {\n      result.push_back(normalizeMap(map, equations));\n   }\n   return result;")
keep("C09", MO, "                  if ( equation[j] != 0 )\n                  {\n                     new_image.push_back(std::make_pair(j, -term.second * equation[j]));\n                  }", "                  new_image.push_back(std::make_pair(j, -(equation[j] * term.second)));")
keep("C09", MO, "         image = new_image;", "         std::swap(image, new_image);")
keep("C09", MO, "   const auto gcd_value = gcd(result);\n   if ( gcd_value > 1 )\n   {\n      result /= gcd_value;\n   }\n   return result;", "   const auto gcd_value = gcd(result);\n   return gcd_value > 1 ? result / gcd_value : result;")

# ------------------------------------------------------------------ C10 conversions
CA = "cast.cpp"
brk("C10", CA, "      if ( OriginalType(output.back()) != element )\n      {\n         throw std::invalid_argument(\"Integer value doesn't fit into the requested integer type.\");\n      }\n", "")
brk("C10", CA, "   for ( const auto& element : input )\n   {\n", "   for ( const auto& element : input )\n   {\n      if ( element == 0 ) continue;\n")
brk("C10", CA, "output.push_back(Integer(element));", "output.push_back(Integer(int16_t(int(element))));")
brk("C10", CA, "      output.push_back(cast<Integer>(row));\n", "      output.insert(output.begin(), cast<Integer>(row));\n")
brk("C10", CA, "   for ( const auto& row : input )\n   {\n      output.push_back", "   for ( const auto& row : input )\n   {\n      if ( row.empty() ) continue;\n      output.push_back")
keep("C10", CA, "   Row<Integer> output;\n   output.reserve(input.size());\n   for ( const auto& element : input )\n   {\n      output.push_back(Integer(element));\n      if ( OriginalType(output.back()) != element )", "   Row<Integer> output;\n   for ( std::size_t i = 0; i < input.size(); ++i )\n   {\n      const auto& element = input[i];\n      output.emplace_back(Integer(element));\n      if ( !(element == OriginalType(output[i])) )")
keep("C10", CA, "   Matrix<Integer> output;\n   output.reserve(input.size());\n   for ( const auto& row : input )\n   {\n      output.push_back(cast<Integer>(row));\n   }\n   return output;", "   Matrix<Integer> output(input.size());\n   for ( std::size_t i = 0; i < input.size(); ++i )\n   {\n      output[i] = cast<Integer>(input[i]);\n   }\n   return output;")
# ------------------------------------------------------------------ C11 integers
IO = "algorithm_integer_operations.cpp"
brk("C11", IO, "return (n < 0) ? -n : n;", "return (n < 1) ? n : -n;")
brk("C11", IO, "      while ( a != 0 && b != 0 )", "      while ( a > 1 && b > 1 )")
brk("C11", IO, "            a %= b;", "            a /= b;")
brk("C11", IO, "return (a == 0) ? b : a;", "return (b == 0) ? b : a;")
keep("C11", IO, "            b %= a;", "            b = static_cast<Integer>(b - a);")
brk("C11", IO, "return unsigned_gcd(static_cast<Integer>(abs(a)), static_cast<Integer>(abs(b)));", "return unsigned_gcd(a, b);")
brk("C11", IO, "static_cast<Integer>(abs(b) / gcd_value));", "abs(b));")
brk("C11", IO, "return static_cast<Integer>(abs(a) * static_cast<Integer>(abs(b) / gcd_value));", "return static_cast<Integer>(a * static_cast<Integer>(abs(b) / gcd_value));")
brk("C11", IO, "static_cast<Integer>(abs(b) / gcd_value));", "static_cast<Integer>(abs(b) / abs(a)));")
keep("C11", IO, "      while ( a != 0 && b != 0 )\n      {\n         if ( a > b )\n         {\n            a %= b;\n         }\n         else\n         {\n            b %= a;\n         }\n      }\n      return (a == 0) ? b : a;", "      while ( b != 0 )\n      {\n         const Integer t = a % b;\n         a = b;\n         b = t;\n      }\n      return a;")
keep("C11", IO, "         if ( a > b )\n", "         if ( a >= b )\n")
keep("C11", IO, "static_cast<Integer>(abs(a) * static_cast<Integer>(abs(b) / gcd_value))", "static_cast<Integer>(static_cast<Integer>(abs(a) / gcd_value) * abs(b))")
keep("C11", IO, "   return (n < 0) ? -n : n;", "   if ( n >= 0 )\n      return n;\n   return static_cast<short>(0 - n);")
# ------------------------------------------------------------------ C12 printing
RO, MO, IQ = "algorithm_row_operations.cpp", "algorithm_matrix_operations.cpp", "algorithm_inequality_operations.cpp"
brk("C12", RO, "            if ( row[i] > 1 && printed_something )", "            if ( row[i] > 2 && printed_something )")
brk("C12", RO, "         if ( row[i] == 1 )\n", "         if ( row[i] == 1 || row[i] == -1 )\n")
brk("C12", RO, "         else if ( row[i] == -1 )\n         {\n            output << '-';", "         else if ( row[i] == -1 )\n         {\n            output << '+';")
brk("C12", RO, "            output << row[i];\n", "            output << row[0];\n")
brk("C12", RO, "         output << names[i];", "         output << names[(i == 2) ? 0 : i];")
brk("C12", RO, "relation << ' ' << algorithm::rhs(row);", "relation << ' ' << row.back();")
brk("C12", RO, "      if ( row[i] != 0 )\n      {\n         if ( printed", "      if ( row[i] > 0 || row[i] < -1 )\n      {\n         if ( printed")
brk("C12", RO, "   output << '\\n';", "   if ( !names.empty() ) output << '\\n';")
brk("C12", RO, "      if ( e >= 0 )\n      {\n         output << ' ';\n      }\n      output << ' ' << e;", "      if ( e >= 0 )\n      {\n         output << ' ';\n      }\n      output << ((e <= -10) ? \"\" : \" \") << e;")
brk("C12", RO, "const auto denominator = ((denominator_is_negative) ? -1 : 1) * vertex.back();", "const auto denominator = vertex.back();")
brk("C12", RO, "      stream << ((denominator_is_negative) ? -1 : 1) * vertex[i] / gcd_value;", "      stream << vertex[i] / gcd_value;")
brk("C12", RO, "      if ( denominator / gcd_value != 1 )", "      if ( denominator != 1 )")
brk("C12", RO, "      if ( denominator / gcd_value != 1 )", "      if ( denominator / gcd_value > 2 )")
brk("C12", RO, "         stream << '/' << denominator / gcd_value;", "         stream << '/' << denominator;")
brk("C12", RO, "      stream << ' ';\n", "      if ( i > 0 ) stream << ' ';\n")
brk("C12", IQ, "return -inequality.back();", "return inequality.back();")
brk("C12", MO, "      prettyPrintln(output, row, names, relation);", "      prettyPrint(output, row, names, relation);")
brk("C12", MO, "      output << row << '\\n';", "      if ( !row.empty() && row.front() != 0 )\n      output << row << '\\n';")
keep("C12", RO, "            if ( row[i] > 1 && printed_something )", "            if ( printed_something && !(row[i] < 0) )")
keep("C12", RO, "   output << ' ' << relation << ' ' << algorithm::rhs(row);", "   output << \" \" << relation;\n   output << \" \" << -row[row.size() - 1];")
keep("C12", RO, "   output << '\\n';", "   output << std::endl;")
keep("C12", RO, "            output << row[i];\n", "            output << std::to_string(row[i]);\n")
keep("C12", RO, "      stream << ' ';\n", "      stream << \" \";\n")
keep("C12", RO, "   for ( const auto& e : row )\n   {\n      if ( e >= 0 )\n      {\n         output << ' ';\n      }\n      output << ' ' << e;\n   }", "   for ( std::size_t i = 0; i < row.size(); ++i )\n   {\n      output << ((row[i] < 0) ? \" \" : \"  \") << row[i];\n   }")

ID, IT, CC, IM, HE, IV = "input_detection.cpp", "integer_type_detection.cpp", "concurrency.cpp", "input_method.cpp", "help.cpp", "input_validity.cpp"
brk("C13", IT, "integerTypeFromString(argv[i] + 3)", "integerTypeFromString(argv[i] + 2)")
brk("C13", IT, "         return IntegerType::Variable;", "         return IntegerType::Safe;")
brk("C13", IT, "   for ( int i = 1; i < argc; ++i )", "   for ( int i = 1; i + 1 < argc; ++i )")
brk("C13", IT, "         if ( i + 1 == argc )", "         if ( i + 1 > argc )")
brk("C13", IT, "|| std::strncmp(argv[i], \"--i\", 3) == 0 )", "&& std::strlen(argv[i]) > 4 )")
brk("C13", IM, "std::strcmp(argument, \"double_description\") == 0", "std::strncmp(argument, \"double_description\", 6) == 0")
brk("C13", IM, "return detectMethod(argv[i] + 9);", "return detectMethod(argv[i] + 10);")
brk("C13", ID, "if ( !is_short && std::strncmp(argument, \"nonzero_\", 8) != 0 )", "if ( !is_short )")
brk("C13", ID, "const auto offset = is_short ? 4 : 14;", "const auto offset = is_short ? 4 : 13;")
brk("C13", ID, "std::strncmp(argument, \"down\", 4) != 0", "std::strncmp(argument, \"down_\", 5) != 0")
brk("C13", ID, "std::strcmp(argument, \"-f\") != 0 && // --filter\n", "\n")
brk("C13", ID, "            ++i; // argv[i] is an option of the form \"-s <arg>\", hence argv[i + 1] is the parameter.", "            i += 2;")
brk("C13", ID, "std::strchr(argument, '=') == nullptr); // option", "std::strchr(argument + 2, '=') != argument + 2); // option")
brk("C13", ID, "(std::strcmp(argv[i], \"-h\") == 0 && i + 1 < argc) ||", "(std::strcmp(argv[i], \"-h\") == 0 && i + 2 < argc) ||")
brk("C13", ID, "std::strncmp(argv[i], \"--help=\", 7) == 0", "std::strncmp(argv[i], \"--help=\", 8) == 0")
brk("C13", CC, "if ( n <= 0 )", "if ( n < 0 )")
brk("C13", CC, "if ( !rest.empty() )", "if ( rest.size() > 1 )")
brk("C13", CC, "(default_value > 0) ? default_value : 1", "default_value")
brk("C13", CC, "if ( !(stream >> n) )", "if ( !(stream >> n) && !stream.eof() )")
brk("C13", HE, "arg = argv[i] + 7;", "arg = argv[i] + 6;")
brk("C13", HE, "if ( i == argc || (std::strcmp(argv[i], \"-h\") == 0 && i + 1 == argc) )", "if ( i == argc )")
brk("C13", HE, "command == \"-t\" ||", "")
brk("C13", IV, "std::strcmp(argv[i], \"--check\") == 0", "std::strcmp(argv[i], \"--checked\") == 0")
brk("C13", IV, "std::strcmp(argv[i], \"-f\") == 0 ||", "std::strncmp(argv[i], \"-f\", 2) == 0 ||")
keep("C13", IT, "if ( std::strcmp(string, \"16\") == 0 )", "if ( std::string(string) == \"16\" )")
keep("C13", IT, "   for ( int i = 1; i < argc; ++i )\n   {", "   int i = 0;\n   while ( ++i < argc )\n   {")
keep("C13", ID, "if ( std::strncmp(argv[i], \"--\", 2) == 0 )", "const std::string word(argv[i]);\n      if ( word.substr(0, 2) == \"--\" )")
keep("C13", ID, "std::strchr(argument, '=') == nullptr);", "std::string(argument).find('=') == std::string::npos);")
keep("C13", CC, "      std::string rest;\n      stream >> rest;\n      if ( !rest.empty() )", "      stream >> std::ws;\n      if ( !stream.eof() )")
keep("C13", CC, "      std::string rest;\n      stream >> rest;\n      if ( !rest.empty() )", "      char rest = 0;\n      if ( stream >> rest )")
keep("C13", IV, "      if ( std::strcmp(argv[i], \"-c\") == 0 || std::strcmp(argv[i], \"--check\") == 0 )\n      {\n         return true;\n      }", "      const std::string word = argv[i];\n      if ( word == \"-c\" || word == \"--check\" )\n      {\n         return true;\n      }")
keep("C13", IM, "std::strncmp(argv[i], \"-m\", 2) == 0 ||", "(argv[i][0] == '-' && argv[i][1] == 'm') ||")

IKW, PG, PL = "input_keywords.cpp", "position_guarded_file.cpp", "istream_peek_line.cpp"
brk("C14", IKW, 'string == "CONV_SECTION:" ||', "")
brk("C14", IKW, 'string == "Reduced Inequalities:");', 'string == "Reduced Inequality:");')
brk("C14", IKW, 'string.compare(0, 10, "Dimension=") == 0', 'string.compare(0, 9, "Dimension") == 0')
brk("C14", IKW, "isKeywordNames(string) ||", "")
brk("C14", IKW, "return (string == \"END\" ||", "return (string.compare(0, 3, \"END\") == 0 ||")
brk("C14", IKW, "i < max_tokens && std", "i + 1 < max_tokens && std")
brk("C14", PG, "   file.clear();\n   file.seekg(initial_position);", "   file.seekg(initial_position);")
brk("C14", PG, "   file.seekg(initial_position);", "   file.seekg(0);\n   file.get();")
brk("C14", PL, "   std::getline(file, line);", "   file >> std::ws;\n   std::getline(file, line);")
brk("C14", PL, "      file.seekg(current_position);", "")
brk("C14", "input_common.cpp", "      string = peekLine(stream);\n      string = trimWhitespace(string);", "      string = peekLine(stream);")
brk("C14", "input_common.cpp", "string.find_first_not_of(\" \\t\\r\")", "string.find_first_not_of(\" \\r\")")
brk("C14", "input_common.cpp", "string.find_last_not_of(\" \\t\\r\") + 1", "string.find_last_not_of(\" \\t\") + 1")
brk("C14", ID, "         else if ( isKeywordReducedInequalities(line) )\n         {\n            words.insert(Keyword::Inequalities);", "         else if ( isKeywordReducedInequalities(line) )\n         {\n            words.insert(Keyword::ConvexHull);")
brk("C14", ID, "if ( (has_conv || has_cone) && has_ieqs )", "if ( has_conv && has_ieqs )")
brk("C14", ID, "         line = input::trimWhitespace(line);\n", "")
keep("C14", IKW, 'string == "END" ||\n           string == "End"', '!string.compare("END") || string == std::string("End")')
keep("C14", "input_common.cpp", "   string.erase(0, string.find_first_not_of(\" \\t\\r\")); // erases leading whitespace\n   string.erase(string.find_last_not_of(\" \\t\\r\") + 1); // erases trailing whitespace\n   return string;",
     "   const auto first = string.find_first_not_of(\" \\t\\r\");\n   if ( first == std::string::npos )\n   {\n      return \"\";\n   }\n   return string.substr(first, string.find_last_not_of(\" \\t\\r\") - first + 1);")
keep("C14", "input_common.cpp", "   string.erase(string.find_last_not_of(\" \\t\\r\") + 1); // erases trailing whitespace", "   while ( !string.empty() && (string.back() == ' ' || string.back() == '\\t' || string.back() == '\\r') )\n   {\n      string.pop_back();\n   }")
keep("C14", ID, "      const auto has_ieqs = words.find(Keyword::Inequalities) != words.end();", "      const bool has_ieqs = words.count(Keyword::Inequalities) > 0;")
keep("C14", "input_common.cpp", "      if ( implementation::isKeyword(string) )\n      {\n         break;\n      }\n      std::getline(stream, string);", "      if ( implementation::isKeyword(string) )\n      {\n         return stream;\n      }\n      std::string skipped;\n      std::getline(stream, skipped);\n      string = skipped;")

# ---- C15 / C16: reading sections
NV, UV, IC, IV, IM, INM, IDM, ICO = ("input_constraint_named_variables.cpp", "input_constraint_unnamed_variables.cpp", "input_constraint.cpp", "input_vertex.cpp", "input_map.cpp", "input_names.cpp", "input_dimension.cpp", "input_common.cpp")
brk("C15", NV, "return std::make_pair(names.size(), -factor);", "return std::make_pair(names.size(), factor);")
brk("C15", NV, "            if ( !is_plus )\n", "            if ( !is_plus && index > 0 )\n")
brk("C15", NV, "if ( ieq[index] != 0 && index + 1 < ieq.size() )", "if ( ieq[index] < 0 && index + 1 < ieq.size() )")
brk("C15", NV, "if ( relation == RelationOperator::Undecided )\n", "if ( false )\n")
brk("C15", NV, "         if ( has_rhs || (relation != RelationOperator::Undecided && index + 1 < ieq.size()) )", "         if ( has_rhs && index + 1 < ieq.size() )")
brk("C15", NV, "      if ( !has_rhs )\n", "      if ( !has_rhs && relation == RelationOperator::Undecided )\n")
brk("C15", NV, "if ( type == ConstraintType::Equation && relation != RelationOperator::Equal )", "if ( type == ConstraintType::Equation && relation == RelationOperator::GreaterEqual )")
brk("C15", NV, "else if ( type == ConstraintType::Inequality && relation == RelationOperator::Equal )", "else if ( false )")
brk("C15", NV, "if ( iterator == names.cend() )\n", "if ( iterator == names.cend() && names.empty() )\n")
brk("C15", NV, "return normalize(ieq, relation);", "return ieq;")
brk("C15", UV, "ieq.back() *= -1;", "ieq.front() *= -1;")
brk("C15", UV, "            if ( has_rhs )\n", "            if ( has_rhs && ieq.empty() )\n")
brk("C15", UV, "if ( relation != RelationOperator::Undecided && !has_rhs )", "if ( relation == RelationOperator::Equal && !has_rhs )")
brk("C15", UV, "if ( !(stream >> coefficient) )", "if ( !(stream >> coefficient) && id.empty() )")
brk("C15", ICO, "if ( relation == RelationOperator::GreaterEqual )", "if ( relation == RelationOperator::LessEqual )")
brk("C15", ICO, "   if ( string == \"-\" )\n", "   if ( string == \"-1\" )\n")
brk("C15", ICO, "if ( string.empty() || string == \"+\" )", "if ( string.empty() )")
brk("C15", ICO, "|| stream.peek() != std::istringstream::traits_type::eof() )", ")")
brk("C15", ICO, "if ( std::find(position, names.cend(), word) != names.cend() ) // match!", "if ( position != names.cend() && position == names.cbegin() && word.size() > 1 )")
brk("C15", ICO, "if ( std::find(position, names.cend(), word) != names.cend() ) // match!", "if ( position != names.cend() && *position == word )")
brk("C15", IC, "if ( !isKeywordInequalities(token) && !isKeywordReducedInequalities(token) )", "if ( !isKeywordInequalities(token) )")
brk("C15", IC, "if ( stream && isKeywordEnd(firstWord(peekLine(stream))) )", "if ( false )")
brk("C15", IC, "      if ( !row.empty() )\n", "      if ( row.size() > 2 )\n")
keep("C15", NV, "      const auto variable = token.substr(end_of_factor);\n", "      const std::string variable(token, end_of_factor);\n")
keep("C15", NV, "            bool is_plus = token == \"+\";", "            const bool is_plus = (token[0] != '-');")
keep("C15", NV, "      if ( end_of_factor == std::string::npos ) // this is the RHS (because there is no name).", "      const bool is_rhs = end_of_factor >= token.size();\n      if ( is_rhs )")
keep("C15", ICO, "      row *= -1; // invert, now row satisfies LessEqual.", "      for ( auto& value : row )\n      {\n         value = -value;\n      }")
keep("C15", ICO, "   std::istringstream stream(string);\n   int result;\n   if ( !(stream >> result) || stream.peek() != std::istringstream::traits_type::eof() )\n   {\n      throw std::invalid_argument(\"toInt: Argument is not an integer.\");\n   }\n   return result;",
     "   std::size_t used = 0;\n   const int result = std::stoi(string, &used);\n   if ( used != string.size() )\n   {\n      throw std::invalid_argument(\"toInt: Argument is not an integer.\");\n   }\n   return result;")
keep("C15", UV, "      while ( stream && !isEndOfLine(stream) && !isEndOfFile(stream) )\n      {\n         if", "      for ( ; stream; )\n      {\n         if ( isEndOfLine(stream) || isEndOfFile(stream) )\n         {\n            break;\n         }\n         if")
brk("C16", IV, "numerator[i] *= lcm_value / denominator[i];", "numerator[i] *= lcm_value / std::abs(denominator[i]);")
brk("C16", IV, "numerator.push_back(lcm_value);", "numerator.push_back(1);")
brk("C16", IV, "ray.back() = 0;", "ray.back() = 1;")
brk("C16", IV, "            if ( tmp == 0 )\n", "            if ( tmp == 0 && numerator.size() > 1 )\n")
brk("C16", IV, "            denominator.push_back(1);", "            denominator.push_back(denominator.empty() ? 1 : denominator.back());")
brk("C16", IV, "      if ( lcm_value > 0 )\n", "      if ( lcm_value > 2 )\n")
brk("C16", "algorithm_row_operations.cpp", "      value = lcm(row[i], value);", "      value = std::max<Integer>(row[i], value);")
brk("C16", "algorithm_row_operations.cpp", "value = abs(row[i]);\n      ++i;\n   }\n   for ( ; i < row.size(); ++i )", "value = row[i];\n      ++i;\n   }\n   for ( ; i < row.size(); ++i )")
brk("C16", IM, "map.push_back({std::make_pair(names.size(), 1)});", "map.push_back({std::make_pair(0, 1)});")
brk("C16", IM, "result.push_back(std::make_pair(names.size(), factor));", "result.push_back(std::make_pair(names.size(), 1));")
brk("C16", IM, "|| (stream && !isEndOfLine(stream) && !isEndOfFile(stream)) )", ")")
brk("C16", IM, "if ( index < result.size() ||", "if ( index + 1 < result.size() ||")
brk("C16", IM, "if ( iterator == names.cend() )", "if ( iterator == names.cend() && variable.size() > 2 )")
brk("C16", INM, "stream && !isKeyword(name);", "stream && !isKeywordEnd(name);")
brk("C16", INM, "names.push_back(name);", "names.insert(names.begin(), name);")
brk("C16", IDM, "stream.get(); // consume '='", "stream.get(); stream.get();")
brk("C16", ICO, "   return trimWhitespace(string);\n}\n\nbool panda::input::isRelation", "   stream.get();\n   return trimWhitespace(string);\n}\n\nbool panda::input::isRelation")
keep("C16", IV, "         if ( stream.peek() == '/' )\n", "         const auto next = stream.peek();\n         if ( next == '/' )\n")
keep("C16", IM, "      const auto count = (next_term == std::string::npos) ? token.size() - position : next_term - position;\n      const auto name = token.substr(position, count);", "      const auto end = std::min(next_term, token.size());\n      const std::string name(token.begin() + position, token.begin() + end);")
keep("C16", INM, "   for ( std::string name = peekWord(stream); stream && !isKeyword(name); name = peekWord(stream) )\n   {\n      stream >> name; // consume name (was only peeked)\n      names.push_back(name);\n   }", "   while ( true )\n   {\n      const auto name = peekWord(stream);\n      if ( !stream || isKeyword(name) )\n      {\n         break;\n      }\n      stream >> token;\n      names.push_back(token);\n   }")
keep("C16", "algorithm_row_operations.cpp", "   for ( ; i < row.size() && row[i] == 1; ++i )\n   {\n   }\n", "   while ( i < row.size() && row[i] == 1 )\n   {\n      ++i;\n   }\n")
FM = "algorithm_fourier_motzkin_elimination.cpp"
AM = "algorithm_matrix_operations.cpp"
brk("C17", FM, "const auto max_count = index + 2 - d;", "const auto max_count = index + 1 - d;")
brk("C17", FM, "      return Bitset::unionCount(Rn, Rp, max) <= max_count;", "      return Bitset::unionCount(Rn, Rp, max) < max_count;")
brk("C17", FM, "const std::vector<Bitset>& R, const Indices& indices_zero)\n   {\n      return", "const std::vector<Bitset>& R, const Indices& indices_zero)\n   {\n      return true ||")
brk("C17", FM, "         if ( u.contains(Rpnr, max) )\n         {\n            return;\n         }\n", "")
brk("C17", FM, "         if ( Rpnr.contains(u, max) )\n", "         if ( false )\n")
brk("C17", FM, "         new_R.back().set(i);\n", "")
brk("C17", FM, "s[index_p] * matrix[index_n] - s[index_n] * matrix[index_p]", "s[index_n] * matrix[index_n] - s[index_p] * matrix[index_p]")
brk("C17", FM, "         if ( gcd_value > 1 )\n         {\n            new_matrix.back() /= gcd_value;\n         }\n", "")
brk("C17", FM, "gcd_value > 1", "gcd_value > 2")
keep("C17", FM, "[&row](const Row<Integer>& v) { return row * v <= 0; }", "[&row](const Row<Integer>& v) { return row * v < 0; }")
brk("C17", FM, "vs.cbegin() + static_cast<typename Vertices<Integer>::difference_type>(start)", "vs.cbegin() + static_cast<typename Vertices<Integer>::difference_type>(std::min(start + 1, vs.size()))")
brk("C17", FM, "            if ( row * vertex < 0 )\n", "            if ( row * vertex != 0 && j > 0 )\n")
brk("C17", FM, "bitset_size <= 40u", "bitset_size <= 50u")
brk("C17", FM, "const auto bitset_size = 1 + (vertices.size() - 1) /", "const auto bitset_size = vertices.size() /")
brk("C17", FM, "            for ( auto& vertex : vertices )\n            {\n               vertex.erase(vertex.begin() + static_cast<typename Vertex<Integer>::difference_type>(col));", "            for ( auto& vertex : vertices )\n            {\n               vertex.erase(vertex.begin());")
brk("C17", FM, "for ( const auto col : makeReverseRange(zero_columns) )", "for ( const auto col : zero_columns )")
brk("C17", FM, "Matrix<Integer> panda::algorithm::fourierMotzkinElimination(Matrix<Integer> input)\n{\n   assert( !input.empty() );\n   auto matrix = input;\n   appendNegativeIdentityMatrix(matrix);\n   Indices used_indices;\n   Indices equation_indices;\n   std::tie(equation_indices, used_indices) = gaussianElimination(matrix);\n   matrix.erase(matrix.begin(), matrix.begin() + static_cast<typename Matrix<Integer>::difference_type>(input.size()));\n   assert( !matrix.empty() );\n   assert( matrix.size() == matrix.back().size() );\n   matrix = transpose(matrix);\n   std::sort(equation_indices.rbegin(), equation_indices.rend());", "Matrix<Integer> panda::algorithm::fourierMotzkinElimination(Matrix<Integer> input)\n{\n   assert( !input.empty() );\n   auto matrix = input;\n   appendNegativeIdentityMatrix(matrix);\n   Indices used_indices;\n   Indices equation_indices;\n   std::tie(equation_indices, used_indices) = gaussianElimination(matrix);\n   matrix.erase(matrix.begin(), matrix.begin() + static_cast<typename Matrix<Integer>::difference_type>(input.size()));\n   matrix = transpose(matrix);")
brk("C17", AM, "      const auto a = -matrix[row][col];\n", "      const auto a = matrix[row][col] > 0 ? Integer(-matrix[row][col]) : matrix[row][col];\n")
brk("C17", AM, "      if ( pivot_row[col] < 0 )\n", "      if ( pivot_row[col] > 0 )\n")
brk("C17", AM, "      if ( row >= t )\n", "      if ( row > t )\n")
brk("C17", FM, "      algorithm::removeTrivialInequality(matrix);\n   }", "   }")
brk("C17", FM, "      for ( const auto index_z : indices_zero )\n      {\n         new_matrix.push_back(matrix[index_z]);\n         new_R.push_back(R[index_z]);\n      }\n", "      for ( const auto index_z : indices_zero )\n      {\n         new_matrix.push_back(matrix[index_z]);\n         new_R.push_back(R[index_z]);\n         new_R.back().set(i);\n      }\n")
keep("C17", FM, "   if ( matrix.empty() ) // all rows are zero\n   {\n      return matrix;\n   }\n   const auto zero_columns = eliminateZeroColumns(matrix, input);\n   assert( std::is_sorted(used_indices.cbegin(), used_indices.cend()) );\n   Vertices<Integer> used;\n   used.reserve(used_indices.size());\n   for ( auto it = used_indices.crbegin(); it != used_indices.crend(); ++it )\n   {\n      used.push_back(input[*it]);\n      input.erase(input.begin() + static_cast<typename Matrix<Integer>::difference_type>(*it));\n   }\n   input.insert(input.begin(), used.cbegin(), used.cend());\n   phaseTwoDispatch", "   if ( matrix.empty() ) // all rows are zero\n   {\n      return matrix;\n   }\n   const auto zero_columns = eliminateZeroColumns(matrix, input);\n   Vertices<Integer> used;\n   Vertices<Integer> others;\n   for ( std::size_t i = input.size(); i-- > 0; )\n   {\n      const auto is_used = std::find(used_indices.cbegin(), used_indices.cend(), i) != used_indices.cend();\n      (is_used ? used : others).push_back(input[i]);\n   }\n   used.insert(used.end(), others.crbegin(), others.crend());\n   input = used;\n   phaseTwoDispatch")
keep("C17", FM, "const auto max_count = index + 2 - d;", "const auto max_count = vertex.size() + index;")
keep("C17", FM, "            if ( countCheck(Rn, Rp, max_count, index) )\n            {\n               if ( containmentCheck(Rn, Rp, index, R, indices_zero) )\n", "            {\n               if ( countCheck(Rn, Rp, max_count, index) && containmentCheck(Rn, Rp, index, R, indices_zero) )\n")
keep("C17", FM, "         new_matrix.push_back(s[index_p] * matrix[index_n] - s[index_n] * matrix[index_p]);\n", "         auto combined = s[index_p] * matrix[index_n];\n         combined += Integer(-s[index_n]) * matrix[index_p];\n         new_matrix.push_back(combined);\n")
keep("C17", FM, "      if ( bitset_size <= 1u )\n      {\n         phaseTwo<BitsetFixedSize<1u>>(matrix, vertices);\n      }\n      else if", "      if")
BF = "bitset_fixed_size.tpp"
BV = "bitset_variable_size.cpp"
brk("C18", BV, "if ( (data[i] & second.data[i]) != second.data[i] )", "if ( (data[i] & second.data[i]) != data[i] )")

brk("C18", BV, "   data(1 + (bits - 1) /", "   data(bits /")
brk("C18", BV, "result.data[i] |= second.data[i];", "result.data[i] ^= second.data[i];")
brk("C18", BV, "(index % std::numeric_limits<DataType>::digits)", "(index % (std::numeric_limits<DataType>::digits - 1))")
brk("C18", BV, "      total -= static_cast<std::size_t>(popcount((*ita) & (*itb)));\n", "")
brk("C18", BV, "((a.data[i] | b.data[i]) & inner.data[i]) != inner.data[i]", "((a.data[i] ^ b.data[i]) & inner.data[i]) != inner.data[i]")
keep("C18", BV, "((a.data[i] | b.data[i]) & inner.data[i]) != inner.data[i]", "(inner.data[i] & ~(a.data[i] | b.data[i])) != 0")
keep("C18", BV, "      total += static_cast<std::size_t>(popcount(*ita));\n      total += static_cast<std::size_t>(popcount(*itb));\n      total -= static_cast<std::size_t>(popcount((*ita) & (*itb)));\n", "      total += static_cast<std::size_t>(popcount(*ita | *itb));\n")
brk("C18", BF, "if ( (data[i] & second.data[i]) != second.data[i] )", "if ( (data[i] & second.data[i]) == 0 )")
brk("C18", BF, "   const auto end = 1u + (max - 1) / std::numeric_limits<DataType>::digits;\n   for ( std::size_t i = 0; i < end; ++i )\n   {\n      if", "   const auto end = max / std::numeric_limits<DataType>::digits;\n   for ( std::size_t i = 0; i < end; ++i )\n   {\n      if")
brk("C18", BF, "   const auto end = 1 + (max - 1) / std::numeric_limits<DataType>::digits;\n   for ( std::size_t i = 0; i < end; ++i )\n   {\n      result", "   const auto end = 1;\n   for ( std::size_t i = 0; i < end; ++i )\n   {\n      result")
brk("C18", BF, "const auto mask = static_cast<DataType>(1u) << (index % std::numeric_limits<DataType>::digits);", "const auto mask = static_cast<DataType>(1) << (index % (std::numeric_limits<DataType>::digits / 2));")
brk("C18", BF, "data[index / std::numeric_limits<DataType>::digits] |= mask;", "data[index / std::numeric_limits<DataType>::digits] = mask;")
keep("C18", BF, "      if ( ((a.data[i] | b.data[i]) & inner.data[i]) != inner.data[i] )\n      {\n         return false;\n      }\n   }\n   return true;", "      const auto united = a.data[i] | b.data[i];\n      if ( (united | inner.data[i]) != united )\n      {\n         return false;\n      }\n   }\n   return true;")
keep("C18", BF, "   auto result = *this;\n   const auto end = 1 + (max - 1) / std::numeric_limits<DataType>::digits;\n   for ( std::size_t i = 0; i < end; ++i )\n   {\n      result.data[i] |= second.data[i];\n   }\n   return result;", "   BitsetFixedSize<Size> result(second);\n   std::size_t i = 0;\n   do\n   {\n      result.data[i] = data[i] | second.data[i];\n      ++i;\n   }\n   while ( i * std::numeric_limits<DataType>::digits < max );\n   return result;")
RO = "algorithm_rotation.cpp"
IO = "algorithm_inequality_operations.cpp"
brk("C19", RO, "const auto furthest_vertex = furthestVertex(matrix, input);", "const auto furthest_vertex = nearestVertex(matrix, input);")
brk("C19", RO, "ridge = d_f * ridge - d_r * facet;", "ridge = d_f * ridge + d_r * facet;")
brk("C19", RO, "      while ( d_r != 0 );", "      while ( d_r < -1 );")
brk("C19", RO, "      while ( d_r != 0 );", "      while ( d_r > 0 );")
brk("C19", RO, "         if ( gcd_value > 1 )\n         {\n            ridge /= gcd_value;\n         }\n", "")
brk("C19", RO, "            d_r /= gcd_ds;\n", "")
brk("C19", RO, "return (algorithm::distance(facet, vertex) == 0);", "return (algorithm::distance(facet, vertex) <= 1);")
brk("C19", RO, "      if ( !isTrivial(new_row, tag) )\n", "")
brk("C19", RO, "isTrivial(const Vertex<Integer>&, tag::vertex)\n   {\n      return false;", "isTrivial(const Vertex<Integer>& vertex, tag::vertex)\n   {\n      return isTrivial(vertex, tag::facet{});")
brk("C19", RO, "return facet.back() == -1 && std::count", "return std::count")
brk("C19", RO, "      if ( vertices_on_facet.empty() )\n      {\n         return {};\n      }\n", "")
brk("C19", RO, "   for ( const auto& ridge : ridges )\n", "   for ( const auto& ridge : Matrix<Integer>(ridges.begin(), ridges.size() > 3 ? ridges.end() - 1 : ridges.end()) )\n")
brk("C19", IO, "for ( auto it = vertices.cbegin() + 1; it != vertices.cend(); ++it )", "for ( auto it = vertices.cbegin() + 1; it < vertices.cend() - 1; ++it )")
brk("C19", IO, "            extremum = d;\n", "")
brk("C19", IO, "std::less<Integer>{}", "std::greater<Integer>{}")
keep("C19", RO, "         vertex = algorithm::nearestVertex(vertices, ridge);\n         d_f = algorithm::distance(facet, vertex);\n         d_r = algorithm::distance(ridge, vertex);", "         const auto nearest = algorithm::nearestVertex(vertices, ridge);\n         d_r = algorithm::distance(ridge, nearest);\n         d_f = algorithm::distance(facet, nearest);")
keep("C19", RO, "      Vertices<Integer> selection;\n      std::copy_if(vertices.cbegin(), vertices.cend(), std::back_inserter(selection), [&facet](const Vertex<Integer>& vertex)\n      {\n         return (algorithm::distance(facet, vertex) == 0);\n      });\n", "      Vertices<Integer> selection;\n      for ( const auto& vertex : vertices )\n      {\n         if ( !(algorithm::distance(facet, vertex) != 0) )\n         {\n            selection.push_back(vertex);\n         }\n      }\n")
keep("C19", IO, "comparator(d, extremum)", "!(!comparator(d, extremum))")
keep("C19", IO, "return -scalarProduct(inequality, vertex);", "return Integer(0) - scalarProduct(inequality, vertex);")
keep("C19", RO, "         const auto gcd_ds = algorithm::gcd(d_f, d_r);\n         if ( gcd_ds > 1 )\n         {\n            d_f /= gcd_ds;\n            d_r /= gcd_ds;\n         }\n", "")
CL = "algorithm_classes.cpp"
brk("C20", CL, "   return *matrix.crbegin(); // Important", "   return *matrix.cbegin(); // Important")
brk("C20", CL, "      classes.push_back(*row_class.crbegin());", "      classes.push_back(*row_class.cbegin());")
brk("C20", CL, "      classes.push_back(*row_class.crbegin());", "      classes.push_back(*rows.crbegin());")
brk("C20", CL, "         if ( inserted )\n", "         if ( inserted && iterators.empty() )\n")
brk("C20", CL, "      for ( const auto& row : row_class )\n      {\n         const auto position = rows.find(row);", "      rows.erase(rows.begin());\n      for ( const auto& row : {*row_class.begin(), *row_class.crbegin()} )\n      {\n         const auto position = rows.find(row);")
brk("C20", CL, "const auto new_row = apply(map, current_row, tag);", "const auto new_row = apply(map, row, tag);")
brk("C20", CL, "      for ( const auto& map : maps )\n      {\n         const auto new_row", "      for ( const auto& map : Maps(maps.begin(), maps.size() > 1 ? maps.end() - 1 : maps.end()) )\n      {\n         const auto new_row")
keep("C20", CL, "   std::vector<Iterator> iterators;\n   iterators.push_back(rows.begin());\n   while ( !iterators.empty() )\n   {\n      const auto& current_row = *iterators.back();\n      iterators.pop_back();", "   std::vector<Iterator> iterators(1, rows.begin());\n   for ( std::size_t next = 0; next < iterators.size(); ++next )\n   {\n      const auto& current_row = *iterators[next];")
keep("C20", CL, "         const auto position = rows.find(row);\n         if ( position != rows.end() )\n         {\n            rows.erase(position);\n         }\n", "         rows.erase(row);\n")
keep("C20", CL, "   const auto matrix = getClass(row, maps, tag);\n   assert( !matrix.empty() );\n   return *matrix.crbegin();", "   const auto matrix = getClass(row, maps, tag);\n   const auto greatest = std::max_element(matrix.cbegin(), matrix.cend());\n   return *greatest;")

def c21(k, *a):
    (brk if k else keep)("C21", AM, *a)
c21(1, "            row *= Integer(-matrix[j][piv_col]); // Integer type name necessary because of integral promotion of short.", "            row *= Integer(matrix[j][piv_col]);")
c21(1, "         --i;\n", "")
c21(1, "for ( std::size_t j = 0; j < i; ++j ) // use", "for ( std::size_t j = 0; j + 1 < i; ++j ) // use")
c21(1, "const auto nz_entry = std::find_if(row.cbegin(), row.cend()", "const auto nz_entry = std::find_if(row.cbegin(), row.cend() - 1")
c21(1, "result[i] = matrix[i] * vector;", "result[i] = matrix[i] * matrix[i];")
c21(1, "result[i][j] = matrix[j][i];", "result[i][j] = matrix[i][j];")
c21(1, "if ( pivot_row[col] < 0 )", "if ( pivot_row[col] > 0 )")
c21(1, "std::swap(matrix[indices[i]], matrix[matrix.size() - 1 - i]);", "std::swap(matrix[indices[i]], matrix[matrix.size() - 1]);")
c21(1, "if ( i != col && b != 0 )", "if ( i > col && b != 0 )")
c21(1, "const auto a = -matrix[row][col];", "const auto a = matrix[row][col];")
c21(1, "      if ( gcd_val > 1 )", "      if ( gcd_val > 2 )")
c21(1, "      if ( row >= t )", "      if ( row > t )")
c21(1, "matrix.back()[i] = Integer(-1);", "matrix.back()[i] = Integer(-2);")
FMR = "algorithm_fourier_motzkin_elimination.cpp"
brk("C21", FMR, "if ( possible && row.back() == -1 )", "if ( possible && row.back() <= -1 )")
brk("C21", FMR, "if ( possible && row.back() == -1 )", "if ( row.back() == -1 )")
brk("C21", FMR, "k + 1 < row.size() && possible", "k + 2 < row.size() && possible")
brk("C21", FMR, "if ( possible && row.back() == -1 )\n      {\n", "if ( possible && row.back() == -1 && j > 0 )\n      {\n")
keep("C21", FMR, "         possible = (row[k] == 0);", "         possible = !(row[k] != 0);")
c21(0, "            if ( gcd_value > 1 )\n            {\n               row /= gcd_value;\n            }\n         }\n      }\n      const auto nz", "            if ( !(gcd_value <= 1) )\n            {\n               row /= gcd_value;\n            }\n         }\n      }\n      const auto nz")
c21(0, "            row *= Integer(-matrix[j][piv_col]); // Integer type name necessary because of integral promotion of short.\n            row += factor * matrix[j];", "            row = matrix[j][piv_col] * row;\n            row -= factor * matrix[j];")
c21(0, "result[i][j] = matrix[j][i];", "const auto& source = matrix[j];\n         result[i][j] = source[i];")

IN, IC = "input.cpp", "input_consistency.cpp"
brk("C22", IN, "      inequalities.push_back(-1 * equation);\n", "")
brk("C22", IN, "      inequalities.push_back(equation);\n", "")
brk("C22", IN, "inequalities.back().back() = -1;", "inequalities.back().back() = 1;")
brk("C22", IN, "         equations = implementation::constraints<ConstraintType::Equation>(file, names);", "         const auto more = implementation::constraints<ConstraintType::Equation>(file, names);\n         if ( inequalities.empty() )\n         {\n            equations = more;\n         }")
brk("C22", IN, "   sort(argc, argv, cone);\n", "")
brk("C22", IN, "   sort(argc, argv, conv);\n", "")
brk("C22", IN, "   sort(argc, argv, inequalities);\n", "")
brk("C22", IN, "   vertices.insert(vertices.end(), conv.cbegin(), conv.cend());", "   vertices.insert(vertices.end(), conv.cbegin(), cone.size() > 1 ? conv.cend() - 1 : conv.cend());")
brk("C22", IN, "std::sort(matrix.rbegin(), matrix.rend());", "std::sort(matrix.begin(), matrix.end() - 1);")
brk("C22", IN, "return (zero_entries_a > zero_entries_b);", "return (zero_entries_a < zero_entries_b);")
brk("C22", IN, "return (zero_entries_a < zero_entries_b);", "return (zero_entries_a > zero_entries_b);")
brk("C22", IN, "            std::reverse(matrix.begin(), matrix.end());\n", "            std::sort(matrix.rbegin(), matrix.rend());\n")
brk("C22", IN, "         all.insert(all.end(), row_class.cbegin(), row_class.cend());\n      }\n      matrix = std::move(all);\n   }\n\n   void expandVertices", "         all.insert(all.end(), row_class.cbegin(), --row_class.cend());\n      }\n      matrix = std::move(all);\n   }\n\n   void expandVertices")
brk("C22", IN, "algorithm::getClass(row, maps, tag::vertex{})", "algorithm::getClass(row, {}, tag::vertex{})")
brk("C22", IN, "   implementation::checkRowLengths(equations, inequalities.front().size());\n", "")
brk("C22", IN, "   implementation::checkRowLengths(known_vertices, inequalities.front().size());\n", "")
brk("C22", IN, "   implementation::checkRowLengths(known_facets, vertices.front().size());\n", "")
brk("C22", IN, "      conv.insert(conv.end(), cone.cbegin(), cone.cend());\n      return conv;", "      return conv;")
brk("C22", IN, "         dimension = implementation::dimension(file);\n      }\n      else if ( implementation::isKeywordNames(token) )\n      {\n         names = implementation::names(file);\n      }\n      else if ( implementation::isKeywordMaps(token) )\n      {\n         maps = implementation::maps(file, names);\n      }\n      else if ( implementation::isKeywordEquations", "         implementation::dimension(file);\n      }\n      else if ( implementation::isKeywordNames(token) )\n      {\n         names = implementation::names(file);\n      }\n      else if ( implementation::isKeywordMaps(token) )\n      {\n         maps = implementation::maps(file, names);\n      }\n      else if ( implementation::isKeywordEquations")
brk("C22", IN, "   return std::make_tuple(inequalities, names, maps, known_vertices);", "   return std::make_tuple(inequalities, names, Maps{}, known_vertices);")
brk("C22", IN, "      const auto tmp_maps = algorithm::normalize(maps, equations);\n      expandInequalities(inequalities, tmp_maps);", "      const auto tmp_maps = algorithm::normalize(maps, equations);\n      expandInequalities(inequalities, equations.empty() ? Maps{tmp_maps.begin(), tmp_maps.begin() + 1} : tmp_maps);")
brk("C22", IC, "names.size() + 1 != dim", "names.size() + 1 < dim")
brk("C22", IC, "dim != dimension + 1", "dim < dimension + 1")
brk("C22", IC, "      if ( entry.size() != dimension )".replace("      if", "         if"), "         if ( entry.size() < dimension )")
brk("C22", IC, "   rangeDimensionCheck(cone, dim, \"Invalid input data: Inconsistent dimensions (a ray in the conical hull is invalid).\");\n", "")
keep("C22", IN, "   sort(argc, argv, cone);\n   sort(argc, argv, conv);\n", "   sort(argc, argv, conv);\n   sort(argc, argv, cone);\n")
keep("C22", IN, "      inequalities.push_back(equation);\n      inequalities.push_back(-1 * equation);\n", "      inequalities.push_back(-1 * equation);\n      inequalities.push_back(equation);\n")
keep("C22", IN, "   vertices.insert(vertices.end(), cone.cbegin(), cone.cend());\n   vertices.insert(vertices.end(), conv.cbegin(), conv.cend());\n", "   vertices.insert(vertices.end(), conv.cbegin(), conv.cend());\n   vertices.insert(vertices.end(), cone.cbegin(), cone.cend());\n")
keep("C22", IN, "   inequalities.emplace_back(inequalities.back().size(), 0);\n   inequalities.back().back() = -1;\n", "   Inequality<int> trivial(inequalities.front().size());\n   trivial.back() = -1;\n   inequalities.push_back(trivial);\n")
keep("C22", IC, "      if ( entry.size() != dimension )".replace("      if", "         if"), "         if ( entry.size() < dimension || entry.size() > dimension )")

SG, DA = "scope_guard.tpp", "delayed_action.tpp"
brk("C23", SG, "   other.dismissed = true;\n", "")
brk("C23", SG, "   dismissed(other.dismissed),", "   dismissed(false),")
brk("C23", SG, "   if ( !dismissed )", "   if ( !dismissed && !std::uncaught_exception() )")
brk("C23", SG, "{\n   dismissed = true;", "{\n   dismissed = !dismissed;")
brk("C23", DA, "   other.dismissed = true;\n", "")
brk("C23", DA, "   dismissed(other.dismissed),", "   dismissed(false),")
brk("C23", DA, "   start(other.start),", "   start(std::chrono::system_clock::now()),")
brk("C23", DA, ">= minimum_waiting_time", "<= minimum_waiting_time")
brk("C23", DA, "   minimum_waiting_time(other.minimum_waiting_time)", "   minimum_waiting_time(0)")
brk("C23", DA, "duration_cast<nanoseconds>(time));\n}\n\ntemplate <typename Runnable>\npanda::DelayedAction<Runnable> panda::makeDelayedAction(Runnable&& runnable, std::chrono::milliseconds", "nanoseconds(time.count()));\n}\n\ntemplate <typename Runnable>\npanda::DelayedAction<Runnable> panda::makeDelayedAction(Runnable&& runnable, std::chrono::milliseconds")
keep("C23", DA, "if ( !dismissed && (std::chrono::system_clock::now() - start) >= minimum_waiting_time )\n   {\n      runnable();\n   }", "if ( dismissed )\n   {\n      return;\n   }\n   const auto now = std::chrono::system_clock::now();\n   if ( now >= start + minimum_waiting_time )\n   {\n      runnable();\n   }")
keep("C23", SG, "   if ( !dismissed )\n   {\n      function();\n   }", "   if ( dismissed )\n   {\n      return;\n   }\n   function();")
keep("C23", SG, "   other.dismissed = true;\n", "   other.dismiss();\n")

DD = "method_double_description.cpp"
brk("C24", DD, "classes(inequalities, reduced_maps, tag::facet{})", "classes(inequalities, maps, tag::facet{})")
brk("C24", DD, "      algorithm::removeTrivialInequality(inequalities);\n", "")
brk("C24", DD, "      if ( !equations.empty() )", "      if ( equations.size() > 1 )")
brk("C24", DD, "         algorithm::prettyPrint(std::cout, equations, names, \"=\");", "         algorithm::prettyPrint(std::cout, equations, names, \"<=\");")
brk("C24", DD, "const auto is_reduced = !maps.empty();\n      print(std::move(inequalities)", "const auto is_reduced = !equations.empty();\n      print(std::move(inequalities)")
brk("C24", DD, "const auto is_reduced = !maps.empty();\n      print(std::move(matrix)", "const auto is_reduced = maps.size() > 1;\n      print(std::move(matrix)")
brk("C24", DD, "         if ( is_reduced )\n         {\n            std::cout << \"Reduced \";\n         }\n         std::cout << \"Rays:\\n\";", "         if ( is_reduced && conv.empty() )\n         {\n            std::cout << \"Reduced \";\n         }\n         std::cout << \"Rays:\\n\";")
brk("C24", DD, "            ray->pop_back();\n", "")
brk("C24", DD, "if ( row.back() != 0 )", "if ( row.back() == 1 )")
brk("C24", DD, "matrix = algorithm::classes(matrix, maps, tag::vertex{});", "matrix = algorithm::classes(matrix, maps, tag::facet{});")
brk("C24", DD, "std::cerr << \"Exception caught: \" << e.what() << '\\n';\n      return 1;", "std::cerr << \"Exception caught: \" << e.what() << '\\n';\n      return 0;")
brk("C24", DD, "      if ( !cone.empty() )", "      else if ( !cone.empty() )")
brk("C24", DD, "fourierMotzkinElimination(vertices)", "fourierMotzkinElimination(equations)")
brk("C24", DD, "normalize(maps, equations)", "normalize(maps, vertices)")
keep("C24", DD, "      if ( !conv.empty() )\n      {\n         if ( is_reduced )\n         {\n            std::cout << \"Reduced \";\n         }\n         std::cout << \"Vertices:\\n\";", "      if ( conv.size() > 0 )\n      {\n         std::cout << std::string(is_reduced ? \"Reduced \" : \"\") << \"Vertices:\" << '\\n';")
keep("C24", DD, "      const auto reduced_maps = algorithm::normalize(maps, equations);\n      if ( !equations.empty() )\n      {\n         std::cout << \"Equations:\\n\";\n         algorithm::prettyPrint(std::cout, equations, names, \"=\");\n         std::cout << '\\n';\n      }\n      // computation part 2: identifying inequalities\n", "      if ( !equations.empty() )\n      {\n         std::cout << \"Equations:\\n\";\n         for ( const auto& e : equations )\n         {\n            algorithm::prettyPrintln(std::cout, e, names, \"=\");\n         }\n         std::cout << std::endl;\n      }\n      const auto reduced_maps = algorithm::normalize(maps, equations);\n")
keep("C24", DD, "            ray->pop_back();\n            std::cout << *ray << '\\n';", "            Row<Integer> short_row(ray->cbegin(), ray->cend() - 1);\n            std::cout << short_row << \"\\n\";")
keep("C24", DD, "         if ( row.back() != 0 )\n         {\n            conv.push_back(&row);\n         }\n         else\n         {\n            cone.push_back(&row);\n         }", "         auto& target = (row.back() == 0) ? cone : conv;\n         target.push_back(&row);")
keep("C24", DD, "      const auto reduced_maps = algorithm::normalize(maps, equations);", "      const auto reduced_maps = equations.empty() ? maps : algorithm::normalize(maps, equations);")
