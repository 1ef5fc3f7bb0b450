From 5dc7b5ec74685353be5ae7580dfbd13f8fec5ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:17 +0000
Subject: [PATCH 01/83] fix: mark non-template definitions in headers inline so
 two translation units can link

---
 include/huira/util/logger.hpp                |  2 +-
 include/huira_impl/platform/get_exe_path.ipp |  2 +-
 include/huira_impl/platform/info.ipp         | 10 ++--
 include/huira_impl/render/trajectory_arc.ipp | 24 +++++-----
 include/huira_impl/stars/io/load_tycho2.ipp  |  4 +-
 include/huira_impl/stars/io/star_catalog.ipp |  2 +-
 include/huira_impl/util/logger.ipp           | 48 ++++++++++----------
 include/huira_impl/util/paths.ipp            | 14 +++---
 8 files changed, 53 insertions(+), 53 deletions(-)

diff --git a/include/huira/util/logger.hpp b/include/huira/util/logger.hpp
index 877465d..eb984d8 100644
--- a/include/huira/util/logger.hpp
+++ b/include/huira/util/logger.hpp
@@ -306,7 +306,7 @@ inline void enable_console_warning(bool enable = true)
     } while (0)
 
 namespace huira {
-std::vector<const char*>& get_thread_scope_stack()
+inline std::vector<const char*>& get_thread_scope_stack()
 {
     thread_local std::vector<const char*> scope_stack;
     return scope_stack;
diff --git a/include/huira_impl/platform/get_exe_path.ipp b/include/huira_impl/platform/get_exe_path.ipp
index 2176856..5128372 100644
--- a/include/huira_impl/platform/get_exe_path.ipp
+++ b/include/huira_impl/platform/get_exe_path.ipp
@@ -17,7 +17,7 @@
 #endif
 
 namespace huira {
-std::string get_executable_path()
+inline std::string get_executable_path()
 {
 #ifdef _WIN32
     char path[MAX_PATH];
diff --git a/include/huira_impl/platform/info.ipp b/include/huira_impl/platform/info.ipp
index d3dd4b2..f3ff603 100644
--- a/include/huira_impl/platform/info.ipp
+++ b/include/huira_impl/platform/info.ipp
@@ -15,7 +15,7 @@
 #endif
 
 namespace huira {
-std::string get_platform()
+inline std::string get_platform()
 {
 #ifdef _WIN32
     return "Windows";
@@ -28,7 +28,7 @@ std::string get_platform()
 #endif
 }
 
-std::string get_compiler_info()
+inline std::string get_compiler_info()
 {
 #ifdef _MSC_VER
     return "MSVC " + std::to_string(_MSC_VER);
@@ -41,7 +41,7 @@ std::string get_compiler_info()
 #endif
 }
 
-std::string get_memory_usage()
+inline std::string get_memory_usage()
 {
     std::string output;
 
@@ -89,7 +89,7 @@ std::string get_memory_usage()
     return output;
 }
 
-std::string get_time_as_string(const std::chrono::system_clock::time_point& tp,
+inline std::string get_time_as_string(const std::chrono::system_clock::time_point& tp,
                                const std::string fmt)
 {
     auto time_t = std::chrono::system_clock::to_time_t(tp);
@@ -112,7 +112,7 @@ std::string get_time_as_string(const std::chrono::system_clock::time_point& tp,
     return oss.str();
 }
 
-std::string get_time_as_string(const std::string& fmt)
+inline std::string get_time_as_string(const std::string& fmt)
 {
     return get_time_as_string(std::chrono::system_clock::now(), fmt);
 }
diff --git a/include/huira_impl/render/trajectory_arc.ipp b/include/huira_impl/render/trajectory_arc.ipp
index 769d5bd..0a8b936 100644
--- a/include/huira_impl/render/trajectory_arc.ipp
+++ b/include/huira_impl/render/trajectory_arc.ipp
@@ -15,7 +15,7 @@ namespace huira {
  *
  * @param samples Direction vectors at each sample time. Must have at least 2 elements.
  */
-TrajectoryArc::TrajectoryArc(const std::vector<Vec3<float>>& samples)
+inline TrajectoryArc::TrajectoryArc(const std::vector<Vec3<float>>& samples)
     : sample_count_(samples.size())
 {
     if (samples.size() < 1) {
@@ -35,7 +35,7 @@ TrajectoryArc::TrajectoryArc(const std::vector<Vec3<float>>& samples)
  * @param t Parameter value in [0, 1].
  * @return Interpolated direction vector.
  */
-Vec3<float> TrajectoryArc::evaluate(float t) const
+inline Vec3<float> TrajectoryArc::evaluate(float t) const
 {
     if (is_polynomial_()) {
         return evaluate_polynomial_(t);
@@ -52,7 +52,7 @@ Vec3<float> TrajectoryArc::evaluate(float t) const
  * @param plane_normal Inward-pointing normal of a plane through the origin.
  * @return Sorted list of parameter values where the crossing occurs.
  */
-std::vector<float> TrajectoryArc::find_plane_crossings(const Vec3<float>& plane_normal) const
+inline std::vector<float> TrajectoryArc::find_plane_crossings(const Vec3<float>& plane_normal) const
 {
     if (is_polynomial_()) {
         return find_crossings_polynomial_(plane_normal);
@@ -68,7 +68,7 @@ std::vector<float> TrajectoryArc::find_plane_crossings(const Vec3<float>& plane_
  *   f(t) = p0(1 - 3t + 2t^2) + p1(4t - 4t^2) + p2(-t + 2t^2)
  *   Coefficients: a0 = p0, a1 = -3*p0 + 4*p1 - p2, a2 = 2*p0 - 4*p1 + 2*p2
  */
-void TrajectoryArc::build_polynomial_(const std::vector<Vec3<float>>& samples)
+inline void TrajectoryArc::build_polynomial_(const std::vector<Vec3<float>>& samples)
 {
     if (samples.size() == 1) {
         // Constant: f(t) = p0
@@ -103,7 +103,7 @@ void TrajectoryArc::build_polynomial_(const std::vector<Vec3<float>>& samples)
  *   S_i(u) = a_i + b_i*u + c_i*u^2 + d_i*u^3
  * where u = t - knots_[i].
  */
-void TrajectoryArc::build_cubic_spline_(const std::vector<Vec3<float>>& samples)
+inline void TrajectoryArc::build_cubic_spline_(const std::vector<Vec3<float>>& samples)
 {
     const std::size_t n = samples.size();
     const std::size_t num_segments = n - 1;
@@ -164,7 +164,7 @@ void TrajectoryArc::build_cubic_spline_(const std::vector<Vec3<float>>& samples)
     }
 }
 
-Vec3<float> TrajectoryArc::evaluate_polynomial_(float t) const
+inline Vec3<float> TrajectoryArc::evaluate_polynomial_(float t) const
 {
     // Horner's method:
     Vec3<float> result = poly_coeffs_.back();
@@ -174,7 +174,7 @@ Vec3<float> TrajectoryArc::evaluate_polynomial_(float t) const
     return result;
 }
 
-Vec3<float> TrajectoryArc::evaluate_spline_(float t) const
+inline Vec3<float> TrajectoryArc::evaluate_spline_(float t) const
 {
     t = std::clamp(t, 0.0f, 1.0f);
 
@@ -198,7 +198,7 @@ Vec3<float> TrajectoryArc::evaluate_spline_(float t) const
  *
  * dot(normal, f(t)) = 0 becomes a scalar polynomial in t.
  */
-std::vector<float> TrajectoryArc::find_crossings_polynomial_(const Vec3<float>& normal) const
+inline std::vector<float> TrajectoryArc::find_crossings_polynomial_(const Vec3<float>& normal) const
 {
     if (poly_coeffs_.size() == 1) {
         // Constant: dot(normal, p0) is either >= 0 or < 0. No crossings.
@@ -220,7 +220,7 @@ std::vector<float> TrajectoryArc::find_crossings_polynomial_(const Vec3<float>&
  *
  * For each segment, dot(normal, S_i(u)) = 0 is a cubic in u.
  */
-std::vector<float> TrajectoryArc::find_crossings_spline_(const Vec3<float>& normal) const
+inline std::vector<float> TrajectoryArc::find_crossings_spline_(const Vec3<float>& normal) const
 {
     std::vector<float> all_roots;
 
@@ -251,7 +251,7 @@ std::vector<float> TrajectoryArc::find_crossings_spline_(const Vec3<float>& norm
 // Root-finding utilities
 // =========================================================================
 
-std::vector<float> TrajectoryArc::solve_linear_(float a, float b, float t_min, float t_max)
+inline std::vector<float> TrajectoryArc::solve_linear_(float a, float b, float t_min, float t_max)
 {
     constexpr float eps = 1e-10f;
     if (std::abs(a) < eps) {
@@ -264,7 +264,7 @@ std::vector<float> TrajectoryArc::solve_linear_(float a, float b, float t_min, f
     return {};
 }
 
-std::vector<float>
+inline std::vector<float>
 TrajectoryArc::solve_quadratic_(float a, float b, float c, float t_min, float t_max)
 {
     constexpr float eps = 1e-10f;
@@ -311,7 +311,7 @@ TrajectoryArc::solve_quadratic_(float a, float b, float c, float t_min, float t_
  *
  * Uses the depressed cubic (Cardano's method) for analytic solution.
  */
-std::vector<float>
+inline std::vector<float>
 TrajectoryArc::solve_cubic_(float a, float b, float c, float d, float t_min, float t_max)
 {
     constexpr float eps = 1e-10f;
diff --git a/include/huira_impl/stars/io/load_tycho2.ipp b/include/huira_impl/stars/io/load_tycho2.ipp
index 81c3769..875d761 100644
--- a/include/huira_impl/stars/io/load_tycho2.ipp
+++ b/include/huira_impl/stars/io/load_tycho2.ipp
@@ -57,7 +57,7 @@ static bool is_valid_line_(const std::string& line)
     return !line.empty() && std::isdigit(static_cast<unsigned char>(line[0]));
 }
 
-std::vector<StarData> read_tycho2_dat(const fs::path& filepath)
+inline std::vector<StarData> read_tycho2_dat(const fs::path& filepath)
 {
     std::vector<StarData> star_data(count_lines_(filepath));
     std::ifstream file(filepath);
@@ -138,7 +138,7 @@ std::vector<StarData> read_tycho2_dat(const fs::path& filepath)
     return star_data;
 }
 
-std::vector<StarData> read_tycho2_suppl(const fs::path& filepath)
+inline std::vector<StarData> read_tycho2_suppl(const fs::path& filepath)
 {
     std::vector<StarData> star_data(count_lines_(filepath));
     std::ifstream file(filepath);
diff --git a/include/huira_impl/stars/io/star_catalog.ipp b/include/huira_impl/stars/io/star_catalog.ipp
index 30d9dac..f3f2db1 100644
--- a/include/huira_impl/stars/io/star_catalog.ipp
+++ b/include/huira_impl/stars/io/star_catalog.ipp
@@ -58,7 +58,7 @@ inline void StarCatalog::write_star_data(const fs::path& filepath)
                    " stars written to: " + filepath.string());
 }
 
-StarCatalog StarCatalog::read_star_data(const fs::path& filepath, float maximum_magnitude)
+inline StarCatalog StarCatalog::read_star_data(const fs::path& filepath, float maximum_magnitude)
 {
     std::ifstream in(filepath, std::ios::binary);
     if (!in) {
diff --git a/include/huira_impl/util/logger.ipp b/include/huira_impl/util/logger.ipp
index 7338960..a9542f2 100644
--- a/include/huira_impl/util/logger.ipp
+++ b/include/huira_impl/util/logger.ipp
@@ -24,7 +24,7 @@ namespace huira {
  *
  * @return std::string Formatted log entry string
  */
-std::string LogEntry::to_string() const
+inline std::string LogEntry::to_string() const
 {
     std::ostringstream oss;
     auto time_t = std::chrono::system_clock::to_time_t(timestamp);
@@ -50,7 +50,7 @@ std::string LogEntry::to_string() const
  * @param level LogLevel to convert
  * @return const char* String representation of the log level
  */
-const char* LogEntry::level_to_string(LogLevel level)
+inline const char* LogEntry::level_to_string(LogLevel level)
 {
     switch (level) {
     case LogLevel::Debug:
@@ -84,7 +84,7 @@ inline std::atomic<bool> Logger::crash_reported_{false};
  * - Debug and info console output disabled
  * - Crash handler automatically installed
  */
-Logger::Logger()
+inline Logger::Logger()
     : buffer_(1000), write_index_(0), min_level_(LogLevel::Info), crash_handler_enabled_(false),
       console_debug_(false), console_info_(false),
       console_warning_(true) // Warning is on by default
@@ -99,7 +99,7 @@ Logger::Logger()
 /**
  * @brief Destructor for the logger.
  */
-Logger::~Logger() = default;
+inline Logger::~Logger() = default;
 
 /**
  * @brief Set the minimum log level.
@@ -108,7 +108,7 @@ Logger::~Logger() = default;
  *
  * @param level Minimum severity level to log
  */
-void Logger::set_level(LogLevel level)
+inline void Logger::set_level(LogLevel level)
 {
     instance().min_level_.store(level, std::memory_order_relaxed);
 }
@@ -118,7 +118,7 @@ void Logger::set_level(LogLevel level)
  *
  * @return LogLevel Current minimum log level
  */
-LogLevel Logger::get_level()
+inline LogLevel Logger::get_level()
 {
     return instance().min_level_.load(std::memory_order_relaxed);
 }
@@ -131,7 +131,7 @@ LogLevel Logger::get_level()
  *
  * @param size New buffer size (minimum 1)
  */
-void Logger::set_buffer_size(size_t size)
+inline void Logger::set_buffer_size(size_t size)
 {
     if (size == 0) {
         size = 1;
@@ -157,7 +157,7 @@ void Logger::set_buffer_size(size_t size)
  *
  * @return size_t Number of log entries that can be stored
  */
-size_t Logger::get_buffer_size()
+inline size_t Logger::get_buffer_size()
 {
     return instance().buffer_.size();
 }
@@ -170,7 +170,7 @@ size_t Logger::get_buffer_size()
  *
  * @param sink Callback function to receive log entries
  */
-void Logger::set_custom_sink(CustomSink sink)
+inline void Logger::set_custom_sink(CustomSink sink)
 {
     instance().custom_sink_ = std::move(sink);
 }
@@ -178,7 +178,7 @@ void Logger::set_custom_sink(CustomSink sink)
 /**
  * @brief Clear the custom output sink.
  */
-void Logger::clear_custom_sink()
+inline void Logger::clear_custom_sink()
 {
     instance().custom_sink_ = nullptr;
 }
@@ -192,7 +192,7 @@ void Logger::clear_custom_sink()
  * @param level Severity level of the message
  * @param message Message to log
  */
-void Logger::log(LogLevel level, const std::string& message)
+inline void Logger::log(LogLevel level, const std::string& message)
 {
     if (level < instance().min_level_.load(std::memory_order_relaxed)) {
         return;
@@ -225,7 +225,7 @@ void Logger::log(LogLevel level, const std::string& message)
  * @param filepath Path to output file (empty for platform-specific default)
  * @return std::string Actual path where log was written, or empty on failure
  */
-std::string Logger::dump_to_file(const std::string& filepath)
+inline std::string Logger::dump_to_file(const std::string& filepath)
 {
     std::filesystem::path actual_path;
 
@@ -278,7 +278,7 @@ std::string Logger::dump_to_file(const std::string& filepath)
  *
  * @param enable True to enable crash handling
  */
-void Logger::enable_crash_handler(bool enable)
+inline void Logger::enable_crash_handler(bool enable)
 {
     instance().crash_handler_enabled_.store(enable, std::memory_order_relaxed);
     if (enable) {
@@ -293,7 +293,7 @@ void Logger::enable_crash_handler(bool enable)
  *
  * @param enable True to enable debug console output
  */
-void Logger::enable_console_debug(bool enable)
+inline void Logger::enable_console_debug(bool enable)
 {
     instance().console_debug_.store(enable, std::memory_order_relaxed);
     if (enable) {
@@ -311,7 +311,7 @@ void Logger::enable_console_debug(bool enable)
  *
  * @param enable True to enable info console output
  */
-void Logger::enable_console_info(bool enable)
+inline void Logger::enable_console_info(bool enable)
 {
     instance().console_info_.store(enable, std::memory_order_relaxed);
     if (enable) {
@@ -330,7 +330,7 @@ void Logger::enable_console_info(bool enable)
  *
  * @param enable True to enable warning console output
  */
-void Logger::enable_console_warning(bool enable)
+inline void Logger::enable_console_warning(bool enable)
 {
     instance().console_warning_.store(enable, std::memory_order_relaxed);
     if (!enable) {
@@ -345,7 +345,7 @@ void Logger::enable_console_warning(bool enable)
  *
  * @return bool True if debug console output is enabled
  */
-bool Logger::is_console_debug_enabled()
+inline bool Logger::is_console_debug_enabled()
 {
     return instance().console_debug_.load(std::memory_order_relaxed);
 }
@@ -355,7 +355,7 @@ bool Logger::is_console_debug_enabled()
  *
  * @return bool True if info console output is enabled
  */
-bool Logger::is_console_info_enabled()
+inline bool Logger::is_console_info_enabled()
 {
     return instance().console_info_.load(std::memory_order_relaxed);
 }
@@ -365,7 +365,7 @@ bool Logger::is_console_info_enabled()
  *
  * @return bool True if warning console output is enabled
  */
-bool Logger::is_console_warning_enabled()
+inline bool Logger::is_console_warning_enabled()
 {
     return instance().console_warning_.load(std::memory_order_relaxed);
 }
@@ -378,7 +378,7 @@ bool Logger::is_console_warning_enabled()
  *
  * @param log_path Path to the dumped log file
  */
-void Logger::output_crash_report(const std::string& log_path)
+inline void Logger::output_crash_report(const std::string& log_path)
 {
     if (!log_path.empty()) {
         std::cerr << red("HUIRA UNCAUGHT EXCEPTION") << "\n";
@@ -405,7 +405,7 @@ void Logger::output_crash_report(const std::string& log_path)
  *
  * @param signal Signal number that triggered the handler
  */
-void Logger::handle_crash(int signal)
+inline void Logger::handle_crash(int signal)
 {
     auto& logger = Logger::instance();
     if (!logger.crash_handler_enabled_.load(std::memory_order_relaxed)) {
@@ -450,7 +450,7 @@ void Logger::handle_crash(int signal)
  * @param exception_info Windows exception information structure
  * @return LONG EXCEPTION_CONTINUE_SEARCH to continue exception handling
  */
-LONG WINAPI Logger::windows_exception_handler(EXCEPTION_POINTERS* exception_info)
+inline LONG WINAPI Logger::windows_exception_handler(EXCEPTION_POINTERS* exception_info)
 {
     auto& logger = Logger::instance();
     if (!logger.crash_handler_enabled_.load(std::memory_order_relaxed)) {
@@ -476,7 +476,7 @@ LONG WINAPI Logger::windows_exception_handler(EXCEPTION_POINTERS* exception_info
  * dumps the log, outputs a crash report, and calls std::abort(). Ensures only
  * one crash report is generated per process.
  */
-[[noreturn]] void Logger::handle_terminate()
+[[noreturn]] inline void Logger::handle_terminate()
 {
     auto& logger = Logger::instance();
     if (!logger.crash_handler_enabled_.load(std::memory_order_relaxed)) {
@@ -520,7 +520,7 @@ LONG WINAPI Logger::windows_exception_handler(EXCEPTION_POINTERS* exception_info
  * Uses compiler pragmas to suppress warnings about potentially-throwing functions
  * in extern C contexts, as the handlers are designed to catch all exceptions internally.
  */
-void Logger::install_crash_handlers()
+inline void Logger::install_crash_handlers()
 {
     // Suppress C5039: passing potentially-throwing function to extern C function
     // Our handlers are carefully designed to catch all exceptions internally
diff --git a/include/huira_impl/util/paths.ipp b/include/huira_impl/util/paths.ipp
index 799e557..aecc5d2 100644
--- a/include/huira_impl/util/paths.ipp
+++ b/include/huira_impl/util/paths.ipp
@@ -11,30 +11,30 @@ namespace fs = std::filesystem;
 
 namespace huira {
 
-Paths& Paths::instance()
+inline Paths& Paths::instance()
 {
     static Paths instance;
     return instance;
 }
 
-fs::path Paths::executable_path()
+inline fs::path Paths::executable_path()
 {
     return get_executable_path();
 }
 
-fs::path Paths::executable_dir()
+inline fs::path Paths::executable_dir()
 {
     return std::filesystem::path(executable_path()).parent_path().string();
 }
 
-fs::path Paths::relative_to_executable(const fs::path& relativePath)
+inline fs::path Paths::relative_to_executable(const fs::path& relativePath)
 {
     namespace fs = std::filesystem;
     auto resolved = fs::path(executable_dir()) / relativePath;
     return fs::weakly_canonical(resolved).string();
 }
 
-fs::path Paths::data_dir() const
+inline fs::path Paths::data_dir() const
 {
     if (data_dir_override_) {
         return *data_dir_override_;
@@ -42,7 +42,7 @@ fs::path Paths::data_dir() const
     return HUIRA_DEFAULT_DATA_DIR;
 }
 
-void Paths::set_data_dir(const fs::path& path)
+inline void Paths::set_data_dir(const fs::path& path)
 {
     namespace fs = std::filesystem;
 
@@ -55,7 +55,7 @@ void Paths::set_data_dir(const fs::path& path)
     }
 }
 
-void Paths::reset_data_dir()
+inline void Paths::reset_data_dir()
 {
     data_dir_override_.reset();
 }
-- 
2.43.0


From 2644caf691bb7dc6e9834e113e01ac7db4d2619d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:17 +0000
Subject: [PATCH 02/83] fix: add the missing include guard to unit_concepts.hpp

---
 include/huira/concepts/unit_concepts.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/huira/concepts/unit_concepts.hpp b/include/huira/concepts/unit_concepts.hpp
index 417ca7a..700391b 100644
--- a/include/huira/concepts/unit_concepts.hpp
+++ b/include/huira/concepts/unit_concepts.hpp
@@ -1,3 +1,5 @@
+#pragma once
+
 #include <concepts>
 #include <ratio>
 #include <type_traits>
-- 
2.43.0


From 19603dbe91b28af325fda2095ca7d33c01b279a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:17 +0000
Subject: [PATCH 03/83] fix: make DeterministicSampler's default constructor
 well-formed

---
 include/huira/render/sampler.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/huira/render/sampler.hpp b/include/huira/render/sampler.hpp
index f27ccb7..94933da 100644
--- a/include/huira/render/sampler.hpp
+++ b/include/huira/render/sampler.hpp
@@ -32,7 +32,7 @@ class RandomSampler : public Sampler<TFloat> {
 template <IsFloatingPoint TFloat>
 class DeterministicSampler : public Sampler<TFloat> {
   public:
-    DeterministicSampler() : value_1d(TFloat(0.5)), value_2d{TFloat(0.5)(0.5)} {}
+    DeterministicSampler() : value_1d(TFloat(0.5)), value_2d{TFloat(0.5), TFloat(0.5)} {}
     DeterministicSampler(TFloat v1d, Vec2<TFloat> v2d) : value_1d(v1d), value_2d(v2d) {}
 
     TFloat get_1d() override { return value_1d; }
-- 
2.43.0


From 976f04cedf9285bca971de3beec6c9831cd12ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:12 +0000
Subject: [PATCH 04/83] fix: write_image_tiff for spectral bundles calls an
 overload that exists

---
 include/huira_impl/images/io/tiff_io.ipp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/huira_impl/images/io/tiff_io.ipp b/include/huira_impl/images/io/tiff_io.ipp
index 9f47b9f..4975918 100644
--- a/include/huira_impl/images/io/tiff_io.ipp
+++ b/include/huira_impl/images/io/tiff_io.ipp
@@ -796,6 +796,7 @@ inline void write_image_tiff(const fs::path& filepath,
         }
     }
 
-    write_image_tiff(filepath, mono_image, bundle.bit_depth, description, artist);
+    write_image_tiff(
+        filepath, ImageBundle<float>(bundle, std::move(mono_image)), description, artist);
 }
 } // namespace huira
-- 
2.43.0


From 597d7d468500fbed659db783dd760d4c9b358731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:16 +0000
Subject: [PATCH 05/83] fix: a mile is 5280 ft (1609.344 m), as MilesPerHour
 already assumes

---
 include/huira/units/units.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/huira/units/units.hpp b/include/huira/units/units.hpp
index d738f4b..dbafaae 100644
--- a/include/huira/units/units.hpp
+++ b/include/huira/units/units.hpp
@@ -54,7 +54,7 @@ using AstronomicalUnit = Quantity<Length, std::ratio<149597870700, 1>>;
 
 using Foot = Quantity<Length, std::ratio<381, 1250>>;
 using Yard = Quantity<Length, std::ratio<1143, 1250>>;
-using Mile = Quantity<Length, std::ratio<80467, 50>>;
+using Mile = Quantity<Length, std::ratio<201168, 125>>;
 /// @}
 
 /// @defgroup mass_units Mass Units
-- 
2.43.0


From b3a122cd1b588511e1f9d1c963ee9fe2c92e042c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:04 +0000
Subject: [PATCH 06/83] fix: reject rotation matrices with a NaN determinant

---
 include/huira_impl/core/rotation.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/huira_impl/core/rotation.ipp b/include/huira_impl/core/rotation.ipp
index 42329bc..59af6cd 100644
--- a/include/huira_impl/core/rotation.ipp
+++ b/include/huira_impl/core/rotation.ipp
@@ -531,7 +531,7 @@ void Rotation<T>::set_matrix_(Mat3<T> matrix)
 {
     constexpr T loose_epsilon = static_cast<T>(1e-3);
     T det = glm::determinant(matrix);
-    if (std::fabs(det - 1.0) > loose_epsilon) {
+    if (!(std::fabs(det - 1.0) <= loose_epsilon)) {
         HUIRA_THROW_ERROR(
             "Rotation matrix must have a determinant close to 1. Given matrix has determinant: " +
             std::to_string(det));
-- 
2.43.0


From 1d9fd2a534fca5fff551f84061d655fbac41e0aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:11 +0000
Subject: [PATCH 07/83] fix: Transform::inverse accounts for the velocity due
 to rotation

---
 include/huira_impl/core/transform.ipp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/huira_impl/core/transform.ipp b/include/huira_impl/core/transform.ipp
index 9d1af84..75ef6cb 100644
--- a/include/huira_impl/core/transform.ipp
+++ b/include/huira_impl/core/transform.ipp
@@ -123,7 +123,8 @@ Transform<T> Transform<T>::inverse() const
     result.position = result.rotation * (-position * result.scale);
 
     // Inverse velocity (in the new frame)
-    result.velocity = result.rotation * (-velocity * result.scale);
+    result.velocity =
+        result.rotation * ((glm::cross(angular_velocity, position) - velocity) * result.scale);
 
     // Inverse angular velocity
     result.angular_velocity = result.rotation * (-angular_velocity);
-- 
2.43.0


From f16ff848caf29f1fe37c05395e350d8923bbca96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:33 +0000
Subject: [PATCH 08/83] fix: Transform::to_matrix builds T * R * S in
 column-major order

---
 include/huira_impl/core/transform.ipp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/huira_impl/core/transform.ipp b/include/huira_impl/core/transform.ipp
index 75ef6cb..2f03fc7 100644
--- a/include/huira_impl/core/transform.ipp
+++ b/include/huira_impl/core/transform.ipp
@@ -37,14 +37,14 @@ Mat4<T> Transform<T>::to_matrix() const
     Mat3<T> rot_basis = rotation.local_to_parent_matrix();
     for (int i = 0; i < 3; ++i) {
         for (int j = 0; j < 3; ++j) {
-            result[i][j] = rot_basis[i][j] * scale[j];
+            result[i][j] = rot_basis[i][j] * scale[i];
         }
     }
 
     // Apply position
-    result[0][3] = position.x;
-    result[1][3] = position.y;
-    result[2][3] = position.z;
+    result[3][0] = position.x;
+    result[3][1] = position.y;
+    result[3][2] = position.z;
 
     // Set homogeneous coordinate
     result[3][3] = T(1);
-- 
2.43.0


From f1437b4337108d9d5f65d37714d61b50cfd9c632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:33 +0000
Subject: [PATCH 09/83] fix: SPICE node velocity is expressed relative to a
 moving, rotating parent

---
 include/huira_impl/scene/node.ipp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/huira_impl/scene/node.ipp b/include/huira_impl/scene/node.ipp
index 5bc5ba2..5a49a0e 100644
--- a/include/huira_impl/scene/node.ipp
+++ b/include/huira_impl/scene/node.ipp
@@ -470,8 +470,12 @@ Node<TSpectral>::get_ssb_transform_(const Time& epoch, const Time& t_obs, double
         auto [pos, vel, _] =
             spice::spkezr<double>(this->spice_origin_, t_emit, "J2000", "NONE", "SSB");
         Transform<double> parent_inv = parent_ssb.inverse();
-        local.position = parent_inv.apply_to_point(pos);
-        local.velocity = parent_inv.apply_to_direction(vel);
+        Transform<double> spice_ssb{};
+        spice_ssb.position = pos;
+        spice_ssb.velocity = vel;
+        Transform<double> spice_local = parent_inv * spice_ssb;
+        local.position = spice_local.position;
+        local.velocity = spice_local.velocity;
     } else if (position_mode_ == TransformMode::MANUAL_TRANSFORM) {
         auto pos = get_local_position_at_(epoch, t_obs, dt);
         local.position = pos.position;
-- 
2.43.0


From 99bebd980f18cc21d6603f2baf7d2220b8919a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:33 +0000
Subject: [PATCH 10/83] fix: SPICE node angular velocity is expressed relative
 to a rotating parent

---
 include/huira_impl/scene/node.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/huira_impl/scene/node.ipp b/include/huira_impl/scene/node.ipp
index 5a49a0e..1378cd7 100644
--- a/include/huira_impl/scene/node.ipp
+++ b/include/huira_impl/scene/node.ipp
@@ -486,7 +486,7 @@ Node<TSpectral>::get_ssb_transform_(const Time& epoch, const Time& t_obs, double
         auto [rotation, ang_vel] = spice::sxform<double>("J2000", this->spice_frame_, t_emit);
         Transform<double> parent_inv = parent_ssb.inverse();
         local.rotation = parent_inv.rotation * rotation;
-        local.angular_velocity = parent_inv.apply_to_direction(ang_vel);
+        local.angular_velocity = parent_inv.apply_to_angular_velocity(ang_vel);
     } else if (rotation_mode_ == TransformMode::MANUAL_TRANSFORM) {
         auto rot = get_local_rotation_at_(epoch, t_obs, dt);
         local.rotation = rot.rotation;
-- 
2.43.0


From c2ea28cff542cb1cc80684ef7a24a2c46cfcb378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:33 +0000
Subject: [PATCH 11/83] fix: body-frame angular velocity is rotated into the
 parent frame

---
 include/huira_impl/scene/node.ipp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/huira_impl/scene/node.ipp b/include/huira_impl/scene/node.ipp
index 1378cd7..6cfb08d 100644
--- a/include/huira_impl/scene/node.ipp
+++ b/include/huira_impl/scene/node.ipp
@@ -570,7 +570,9 @@ Node<TSpectral>::get_local_rotation_at_(const Time& epoch, const Time& t_obs, do
             }
         }
 
-        local_transform_at_time.angular_velocity = local_transform_.angular_velocity;
+        // Transforms carry the angular velocity in the parent frame
+        local_transform_at_time.angular_velocity =
+            body_frame_rates_ ? local_transform_at_time.rotation * omega : omega;
     } else {
         // This is not expected to happen since the setters should prevent it
         HUIRA_THROW_ERROR("get_local_rotation_at_ - Unknown rotation_mode_");
-- 
2.43.0


From ce1babe9e0f0b1856fbeec491ceb14cae5de86ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:33 +0000
Subject: [PATCH 12/83] fix: spice::sxform does not rotate the angular velocity
 twice

---
 include/huira_impl/core/spice.ipp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/huira_impl/core/spice.ipp b/include/huira_impl/core/spice.ipp
index 72fd408..281bc13 100644
--- a/include/huira_impl/core/spice.ipp
+++ b/include/huira_impl/core/spice.ipp
@@ -357,12 +357,12 @@ sxform(const std::string& FROM, const std::string& TO, const huira::Time& time)
                             static_cast<T>(matrix[1][2]),
                             static_cast<T>(matrix[2][2])};
 
-    huira::Vec3<T> ang_vel_local{static_cast<T>(angular_velocity[0]),
-                                 static_cast<T>(angular_velocity[1]),
-                                 static_cast<T>(angular_velocity[2])};
+    // xf2rav_c gives the angular velocity in the base (FROM) frame
+    huira::Vec3<T> ang_vel_parent{static_cast<T>(angular_velocity[0]),
+                                  static_cast<T>(angular_velocity[1]),
+                                  static_cast<T>(angular_velocity[2])};
 
     Rotation<T> rotation_obj = huira::Rotation<T>::from_parent_to_local(rotation);
-    huira::Vec3<T> ang_vel_parent = rotation_obj * ang_vel_local;
 
     // SPICE represents tha passive rotation of parent-to-local:
     return {rotation_obj, ang_vel_parent};
-- 
2.43.0


From a242e711af77ddb19cb9f38c4df460483c56d07f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:33 +0000
Subject: [PATCH 13/83] fix: report SPICE errors of xf2rav_c

---
 include/huira_impl/core/spice.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/huira_impl/core/spice.ipp b/include/huira_impl/core/spice.ipp
index 281bc13..1efd6cf 100644
--- a/include/huira_impl/core/spice.ipp
+++ b/include/huira_impl/core/spice.ipp
@@ -344,7 +344,7 @@ sxform(const std::string& FROM, const std::string& TO, const huira::Time& time)
     call_spice(sxform_c, FROM.c_str(), TO.c_str(), et, state_xform);
 
     // Extract rotation matrix and angular velocity vector
-    xf2rav_c(state_xform, matrix, angular_velocity);
+    call_spice(xf2rav_c, state_xform, matrix, angular_velocity);
 
     // SPICE returns row-major, huira::Mat3 is column-major
     huira::Mat3<T> rotation{static_cast<T>(matrix[0][0]),
-- 
2.43.0


From 70cb3bfe97eba084cf3440e2ac88eea9cf5fb11c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:53 +0000
Subject: [PATCH 14/83] fix: the relativistic aberration formula keeps
 directions of unit length

---
 include/huira_impl/core/physics.ipp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/huira_impl/core/physics.ipp b/include/huira_impl/core/physics.ipp
index b2a6204..9a0773b 100644
--- a/include/huira_impl/core/physics.ipp
+++ b/include/huira_impl/core/physics.ipp
@@ -249,15 +249,16 @@ inline Vec3<double> compute_aberrated_direction(Vec3<double> direction, Vec3<dou
 
         // Relativistic Aberration Formula
         //    Transforms the direction vector 'u' into the moving frame 'u_app'.
-        //    Formula: u_app = (u + beta + (gamma / (1+gamma)) * (u . beta) * beta)
-        //                     ----------------------------------------------------
-        //                             gamma * (1 + u . beta)
+        //    Formula: u_app = (u + gamma * beta + (gamma^2 / (1+gamma)) * (u . beta) * beta)
+        //                     --------------------------------------------------------------
+        //                                    gamma * (1 + u . beta)
         //
         // Because 'u' is (Observer -> Object) and we move 'v',
         // the object should appear shifted TOWARDS 'v'.
-        // (u + beta) in the numerator achieves this correctly.
+        // (u + gamma * beta) in the numerator achieves this correctly.
 
-        Vec3<double> num = direction + beta + (gamma / (1.0 + gamma)) * u_dot_beta * beta;
+        Vec3<double> num = direction + gamma * beta +
+                           (gamma * gamma / (1.0 + gamma)) * u_dot_beta * beta;
         double den = gamma * (1.0 + u_dot_beta);
 
         return num / den;
-- 
2.43.0


From 7b20e2a6f052a8bd8aa1911346f69838b15ae2f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:53 +0000
Subject: [PATCH 15/83] fix: integrate() of an empty function does not read out
 of bounds

---
 include/huira_impl/core/physics.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/huira_impl/core/physics.ipp b/include/huira_impl/core/physics.ipp
index 9a0773b..70d97cb 100644
--- a/include/huira_impl/core/physics.ipp
+++ b/include/huira_impl/core/physics.ipp
@@ -221,7 +221,7 @@ TSpectral visual_magnitude_to_irradiance(double visual_magnitude, TSpectral albe
 inline double integrate(const std::vector<double>& x, const std::vector<double>& y)
 {
     double sum = 0.0;
-    for (size_t i = 0; i < x.size() - 1; ++i) {
+    for (size_t i = 0; i + 1 < x.size(); ++i) {
         double dx = x[i + 1] - x[i];
         double avg_y = 0.5 * (y[i] + y[i + 1]);
         sum += avg_y * dx;
-- 
2.43.0


From 91072d90f4732475898d60d508a2183f3a2cf17c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:12 +0000
Subject: [PATCH 16/83] fix: Keplerian orbits pass the periapsis distance to
 conics_c

---
 include/huira/scene/state_callbacks/keplerian_orbit.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/huira/scene/state_callbacks/keplerian_orbit.hpp b/include/huira/scene/state_callbacks/keplerian_orbit.hpp
index addb655..9106b7f 100644
--- a/include/huira/scene/state_callbacks/keplerian_orbit.hpp
+++ b/include/huira/scene/state_callbacks/keplerian_orbit.hpp
@@ -18,7 +18,8 @@ struct KeplerianOrbitCallback : public PositionCallback {
                            const Time& epoch,
                            double mu)
     {
-        elements_[0] = a.to_si() / 1000.0;
+        // conics_c takes the periapsis distance, not the semi-major axis
+        elements_[0] = a.to_si() * (1.0 - e) / 1000.0;
         elements_[1] = e;
         elements_[2] = i.to_si();
         elements_[3] = raan.to_si();
-- 
2.43.0


From 63868737bbdd7939b37624935f9b49ed5deac56c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:46 +0000
Subject: [PATCH 17/83] fix: linspace of one value returns the minimum instead
 of NaN

---
 include/huira_impl/core/physics.ipp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/huira_impl/core/physics.ipp b/include/huira_impl/core/physics.ipp
index 70d97cb..03e6c61 100644
--- a/include/huira_impl/core/physics.ipp
+++ b/include/huira_impl/core/physics.ipp
@@ -61,6 +61,10 @@ template <IsFloatingPoint T>
 std::vector<T> linspace(T min, T max, size_t N)
 {
     std::vector<T> output(N);
+    if (N == 1) {
+        output[0] = min;
+        return output;
+    }
     T step = (max - min) / static_cast<T>(N - 1);
     for (size_t i = 0; i < N; ++i) {
         output[i] = min + (static_cast<T>(i) * step);
-- 
2.43.0


From 95ae2eccae7190a091a8f1a0b89acd3b91671679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:46 +0000
Subject: [PATCH 18/83] fix: convert_rgb_to_spectral tests overlap against the
 whole RGB range, not the red bin alone

---
 include/huira_impl/core/spectral_bins.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/huira_impl/core/spectral_bins.ipp b/include/huira_impl/core/spectral_bins.ipp
index 8c11cee..5306f12 100644
--- a/include/huira_impl/core/spectral_bins.ipp
+++ b/include/huira_impl/core/spectral_bins.ipp
@@ -799,7 +799,7 @@ TSpectral convert_rgb_to_spectral(const RGB& rgb)
         // Determine overlap between TSpectral's full range and RGB's full range
         constexpr double spectral_min = TSpectral::get_bin(0).min_wavelength;
         constexpr double spectral_max = TSpectral::get_bin(TSpectral::size() - 1).max_wavelength;
-        constexpr double rgb_min = RGB::get_bin(0).min_wavelength; // 380nm (blue bin min)
+        constexpr double rgb_min = RGB::get_bin(2).min_wavelength; // 380nm (blue bin min)
         constexpr double rgb_max = RGB::get_bin(0).max_wavelength; // 750nm (red bin max)
 
         constexpr double overlap_min = std::max(spectral_min, rgb_min);
-- 
2.43.0


From c6d93aeaf9bb84ba771ac2cfc7e1ebd52ed8ff6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:21 +0000
Subject: [PATCH 19/83] fix: OpenCV distortion delta excludes the undistorted
 point (zero coefficients are the identity)

---
 include/huira_impl/cameras/distortion/opencv_distortion.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/huira_impl/cameras/distortion/opencv_distortion.ipp b/include/huira_impl/cameras/distortion/opencv_distortion.ipp
index 6040246..23b58ff 100644
--- a/include/huira_impl/cameras/distortion/opencv_distortion.ipp
+++ b/include/huira_impl/cameras/distortion/opencv_distortion.ipp
@@ -71,7 +71,7 @@ OpenCVDistortion<TSpectral>::compute_delta_(BasePixel<TFloat> homogeneous_coords
             static_cast<TFloat>(coefficients_.s3) * r2 +
             static_cast<TFloat>(coefficients_.s4) * r4};
 
-    return radial_factor * homogeneous_coords_tf + tangential_and_prism;
+    return (radial_factor - TFloat{1}) * homogeneous_coords_tf + tangential_and_prism;
 }
 
 /**
-- 
2.43.0


From 0b9e258e7f45f6b1221a6a4dba5cd7e77b629b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:21 +0000
Subject: [PATCH 20/83] fix: set_intrinsic_matrix reads the principal point
 from the last column (matrices are column-major)

---
 include/huira_impl/cameras/camera_model.ipp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/huira_impl/cameras/camera_model.ipp b/include/huira_impl/cameras/camera_model.ipp
index 7be37bc..052beb0 100644
--- a/include/huira_impl/cameras/camera_model.ipp
+++ b/include/huira_impl/cameras/camera_model.ipp
@@ -228,8 +228,8 @@ void CameraModel<TSpectral>::set_intrinsic_matrix(const Mat3<float>& intrinsic_m
 {
     this->set_intrinsics(intrinsic_matrix[0][0],
                          intrinsic_matrix[1][1],
-                         intrinsic_matrix[0][2],
-                         intrinsic_matrix[1][2],
+                         intrinsic_matrix[2][0],
+                         intrinsic_matrix[2][1],
                          resolution,
                          anchor_focal_length);
 }
-- 
2.43.0


From ba9e493a88171ec57df00bc77f0ff8f56262d6d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:59 +0000
Subject: [PATCH 21/83] fix: camera keeps its distortion field, frustum and
 solid angles in step with distortion, sensor and convention

---
 include/huira/cameras/camera_model.hpp      | 12 ++++++++++--
 include/huira_impl/cameras/camera_model.ipp |  7 +++++--
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/include/huira/cameras/camera_model.hpp b/include/huira/cameras/camera_model.hpp
index f4aa44e..0ad4cb3 100644
--- a/include/huira/cameras/camera_model.hpp
+++ b/include/huira/cameras/camera_model.hpp
@@ -62,7 +62,11 @@ class CameraModel : public SceneObject<CameraModel<TSpectral>> {
     void set_opencv_distortion(OpenCVCoefficients coeffs);
     void set_owen_distortion(OwenCoefficients coeffs);
 
-    void delete_distortion() { distortion_ = nullptr; }
+    void delete_distortion()
+    {
+        distortion_ = nullptr;
+        compute_intrinsics_();
+    }
 
     template <IsSensor<TSpectral> TSensor, typename... Args>
     void set_sensor(Args&&... args);
@@ -152,7 +156,11 @@ class CameraModel : public SceneObject<CameraModel<TSpectral>> {
         return FrameBuffer<TSpectral>(resolution());
     }
 
-    void use_blender_convention(bool value = true) { blender_convention_ = value; }
+    void use_blender_convention(bool value = true)
+    {
+        blender_convention_ = value;
+        compute_intrinsics_();
+    }
     bool is_blender_convention() const { return blender_convention_; }
 
   protected:
diff --git a/include/huira_impl/cameras/camera_model.ipp b/include/huira_impl/cameras/camera_model.ipp
index 052beb0..08fd88f 100644
--- a/include/huira_impl/cameras/camera_model.ipp
+++ b/include/huira_impl/cameras/camera_model.ipp
@@ -63,8 +63,7 @@ template <IsDistortion<TSpectral> TDistortion, typename... Args>
 void CameraModel<TSpectral>::set_distortion(Args&&... args)
 {
     distortion_ = std::make_unique<TDistortion>(std::forward<Args>(args)...);
-    compute_distortion_field_();
-    compute_frustum_();
+    compute_intrinsics_();
 }
 
 /**
@@ -609,6 +608,10 @@ void CameraModel<TSpectral>::compute_intrinsics_()
         fy_ = focal_length_ / sensor_->pixel_pitch().y;
     }
 
+    // Rays are cast through the distortion field, so it comes before the frustum.
+    if (distortion_) {
+        compute_distortion_field_();
+    }
     compute_frustum_();
     compute_pixel_solid_angles_();
 }
-- 
2.43.0


From 70b710de79c372c7e275e5c5f10a1049d94cd328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:19 +0000
Subject: [PATCH 22/83] fix: set_focal_length refuses an invalid value before
 changing the camera

---
 include/huira_impl/cameras/camera_model.ipp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/huira_impl/cameras/camera_model.ipp b/include/huira_impl/cameras/camera_model.ipp
index 08fd88f..1543629 100644
--- a/include/huira_impl/cameras/camera_model.ipp
+++ b/include/huira_impl/cameras/camera_model.ipp
@@ -33,14 +33,15 @@ CameraModel<TSpectral>::CameraModel()
 template <IsSpectral TSpectral>
 void CameraModel<TSpectral>::set_focal_length(units::Millimeter focal_length)
 {
-    is_explicit_matrix_ = false;
-    focal_length_ = focal_length.to_si_f();
+    float new_focal_length = focal_length.to_si_f();
 
-    if (focal_length_ <= 0 || std::isinf(focal_length_) || std::isnan(focal_length_)) {
+    if (new_focal_length <= 0 || std::isinf(new_focal_length) || std::isnan(new_focal_length)) {
         HUIRA_THROW_ERROR(
             "CameraModel::set_focal_length - Focal length must be a positive finite value: " +
-            std::to_string(focal_length_));
+            std::to_string(new_focal_length));
     }
+    is_explicit_matrix_ = false;
+    focal_length_ = new_focal_length;
 
     compute_intrinsics_();
     if (use_aperture_psf_) {
-- 
2.43.0


From 4cd2bd62d459c4654038ede70eaff0edea58c933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:35 +0000
Subject: [PATCH 23/83] fix: aperture PSF and defocus kernel follow the optics
 they are derived from

---
 include/huira/cameras/camera_model.hpp      |  1 +
 include/huira_impl/cameras/camera_model.ipp | 35 +++++++++++----------
 2 files changed, 20 insertions(+), 16 deletions(-)

diff --git a/include/huira/cameras/camera_model.hpp b/include/huira/cameras/camera_model.hpp
index 0ad4cb3..7ea286c 100644
--- a/include/huira/cameras/camera_model.hpp
+++ b/include/huira/cameras/camera_model.hpp
@@ -193,6 +193,7 @@ class CameraModel : public SceneObject<CameraModel<TSpectral>> {
 
     bool is_explicit_matrix_ = false;
     void compute_intrinsics_();
+    void refresh_aperture_products_();
 
     bool depth_of_field_ = false;
 
diff --git a/include/huira_impl/cameras/camera_model.ipp b/include/huira_impl/cameras/camera_model.ipp
index 1543629..9ce3240 100644
--- a/include/huira_impl/cameras/camera_model.ipp
+++ b/include/huira_impl/cameras/camera_model.ipp
@@ -44,12 +44,6 @@ void CameraModel<TSpectral>::set_focal_length(units::Millimeter focal_length)
     focal_length_ = new_focal_length;
 
     compute_intrinsics_();
-    if (use_aperture_psf_) {
-        units::Meter f(focal_length_);
-        units::Meter px(sensor_->pixel_pitch().x);
-        units::Meter py(sensor_->pixel_pitch().y);
-        psf_ = aperture_->make_psf(f, px, py, psf_->get_radius(), psf_->get_banks());
-    }
 }
 
 /**
@@ -292,6 +286,7 @@ template <IsAperture TAperture, typename... Args>
 void CameraModel<TSpectral>::set_aperture(Args&&... args)
 {
     aperture_ = std::make_unique<TAperture>(std::forward<Args>(args)...);
+    refresh_aperture_products_();
 }
 
 /**
@@ -408,10 +403,7 @@ void CameraModel<TSpectral>::set_focus_distance(units::Meter focus_distance)
     }
     d_ = focus_distance_;
 
-    units::Meter pitch_x(sensor_->pixel_pitch().x);
-    units::Meter pitch_y(sensor_->pixel_pitch().y);
-    this->aperture_->build_defocus_kernel(
-        this->get_diopters(), this->focal_length(), pitch_x, pitch_y, 16);
+    refresh_aperture_products_();
 }
 
 /**
@@ -575,12 +567,7 @@ void CameraModel<TSpectral>::set_fstop(float fstop)
     units::Meter aperture_diameter(focal_length_ / fstop);
     units::SquareMeter aperture_area = PI<float>() * (aperture_diameter * aperture_diameter) / 4.f;
     this->aperture_->set_area(aperture_area);
-    if (use_aperture_psf_) {
-        units::Meter f(focal_length_);
-        units::Meter px(sensor_->pixel_pitch().x);
-        units::Meter py(sensor_->pixel_pitch().y);
-        psf_ = aperture_->make_psf(f, px, py, psf_->get_radius(), psf_->get_banks());
-    }
+    refresh_aperture_products_();
 }
 
 /**
@@ -615,6 +602,22 @@ void CameraModel<TSpectral>::compute_intrinsics_()
     }
     compute_frustum_();
     compute_pixel_solid_angles_();
+    refresh_aperture_products_();
+}
+
+/**
+ * @brief Rebuilds what the aperture derives from focal length, pixel pitch and focus distance.
+ */
+template <IsSpectral TSpectral>
+void CameraModel<TSpectral>::refresh_aperture_products_()
+{
+    units::Meter px(sensor_->pixel_pitch().x);
+    units::Meter py(sensor_->pixel_pitch().y);
+    if (use_aperture_psf_) {
+        units::Meter f(focal_length_);
+        psf_ = aperture_->make_psf(f, px, py, psf_->get_radius(), psf_->get_banks());
+    }
+    aperture_->build_defocus_kernel(this->get_diopters(), this->focal_length(), px, py, 16);
 }
 
 template <IsSpectral TSpectral>
-- 
2.43.0


From c28d124dfe1e822c3dd944d00ae7f5eab3b83c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:38 +0000
Subject: [PATCH 24/83] fix: depth of field with a distortion model focuses on
 the same plane as without

---
 include/huira_impl/cameras/camera_model.ipp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/huira_impl/cameras/camera_model.ipp b/include/huira_impl/cameras/camera_model.ipp
index 9ce3240..2e77baf 100644
--- a/include/huira_impl/cameras/camera_model.ipp
+++ b/include/huira_impl/cameras/camera_model.ipp
@@ -494,7 +494,8 @@ Ray<TSpectral> CameraModel<TSpectral>::cast_ray(const Pixel& pixel, Sampler<floa
         Vec3<float> aperture_point{aperture_sample.x, aperture_sample.y, 0.f};
 
         if (!std::isinf(d_)) {
-            Vec3<float> focal_point = direction * d_;
+            // The focal plane is perpendicular to the optical axis (the distortion field holds unit vectors)
+            Vec3<float> focal_point = direction * (d_ / std::abs(direction.z));
             direction = focal_point - aperture_point;
         }
         origin = aperture_point;
-- 
2.43.0


From 0a4bcf34c16a542840e2185b4adae8b7c2a723f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:47 +0000
Subject: [PATCH 25/83] fix: sine_hemisphere draws directions with the density
 it reports

---
 include/huira/materials/sampling_utils.hpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/include/huira/materials/sampling_utils.hpp b/include/huira/materials/sampling_utils.hpp
index 329b3aa..51babd0 100644
--- a/include/huira/materials/sampling_utils.hpp
+++ b/include/huira/materials/sampling_utils.hpp
@@ -1,5 +1,6 @@
 #pragma once
 
+#include <algorithm>
 #include <cmath>
 #include <numbers>
 
@@ -65,8 +66,16 @@ struct HemisphereSample {
  */
 [[nodiscard]] inline HemisphereSample sine_hemisphere(float u1, float u2) noexcept
 {
-    const float cos_theta = std::cbrt(1.0f - u1);
-    const float sin_theta = std::sqrt(std::max(0.0f, 1.0f - cos_theta * cos_theta));
+    // The density 2 sin(theta) / pi^2 has the CDF (2 theta - sin(2 theta)) / pi; invert it for
+    // x = 2 theta by Newton's method, starting from the leading term of its series.
+    const float target = std::numbers::pi_v<float> * u1;
+    float x = std::cbrt(6.0f * target);
+    for (int i = 0; i < 4; ++i) {
+        x -= (x - std::sin(x) - target) / std::max(1.0f - std::cos(x), 1e-8f);
+    }
+    const float theta = 0.5f * std::clamp(x, 0.0f, std::numbers::pi_v<float>);
+    const float cos_theta = std::cos(theta);
+    const float sin_theta = std::sin(theta);
     const float phi = 2.0f * std::numbers::pi_v<float> * u2;
 
     const float pdf = 2.0f * sin_theta / (std::numbers::pi_v<float> * std::numbers::pi_v<float>);
-- 
2.43.0


From 25f79655aca6f6f3e6df12b72988eecb4ca0369d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:35 +0000
Subject: [PATCH 26/83] fix: Image::at rejects negative coordinates

---
 include/huira_impl/images/image.ipp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/huira_impl/images/image.ipp b/include/huira_impl/images/image.ipp
index 6d583b0..ec3266d 100644
--- a/include/huira_impl/images/image.ipp
+++ b/include/huira_impl/images/image.ipp
@@ -290,7 +290,7 @@ const PixelT& Image<PixelT>::at(std::size_t index) const
 template <IsImagePixel PixelT>
 PixelT& Image<PixelT>::at(int x, int y)
 {
-    if (x >= resolution_.width || y >= resolution_.height) {
+    if (x < 0 || y < 0 || x >= resolution_.width || y >= resolution_.height) {
         HUIRA_THROW_ERROR("Image::at: coordinates out of bounds");
     }
     return data_[to_linear(x, y)];
@@ -307,7 +307,7 @@ PixelT& Image<PixelT>::at(int x, int y)
 template <IsImagePixel PixelT>
 const PixelT& Image<PixelT>::at(int x, int y) const
 {
-    if (x >= resolution_.width || y >= resolution_.height) {
+    if (x < 0 || y < 0 || x >= resolution_.width || y >= resolution_.height) {
         HUIRA_THROW_ERROR("Image::at: coordinates out of bounds");
     }
     return data_[to_linear(x, y)];
@@ -328,7 +328,7 @@ PixelT& Image<PixelT>::at(const Pixel& pixel)
     // TODO Do proper rounding/conversion
     auto x = static_cast<int>(pixel.x);
     auto y = static_cast<int>(pixel.y);
-    if (x >= resolution_.width || y >= resolution_.height) {
+    if (x < 0 || y < 0 || x >= resolution_.width || y >= resolution_.height) {
         HUIRA_THROW_ERROR("Image::at: pixel coordinates out of bounds");
     }
     return data_[to_linear(x, y)];
@@ -349,7 +349,7 @@ const PixelT& Image<PixelT>::at(const Pixel& pixel) const
     // TODO Do proper rounding/conversion
     auto x = static_cast<int>(pixel.x);
     auto y = static_cast<int>(pixel.y);
-    if (x >= resolution_.width || y >= resolution_.height) {
+    if (x < 0 || y < 0 || x >= resolution_.width || y >= resolution_.height) {
         HUIRA_THROW_ERROR("Image::at: pixel coordinates out of bounds");
     }
     return data_[to_linear(x, y)];
-- 
2.43.0


From 919338b827dd910f6ceddcd24799d3a704bf6c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:47 +0000
Subject: [PATCH 27/83] fix: small kernels are convolved, not correlated, like
 large ones

---
 include/huira_impl/images/image.ipp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/huira_impl/images/image.ipp b/include/huira_impl/images/image.ipp
index ec3266d..fb0ed1a 100644
--- a/include/huira_impl/images/image.ipp
+++ b/include/huira_impl/images/image.ipp
@@ -627,12 +627,12 @@ void Image<PixelT>::convolve_direct_(const Image<PixelT>& kernel)
         for (int x = 0; x < this->width(); ++x) {
             PixelT sum{};
             for (int ky = 0; ky < kh; ++ky) {
-                int sy = y + ky - kcy;
+                int sy = y - (ky - kcy);
                 if (sy < 0 || sy >= this->height()) {
                     continue;
                 }
                 for (int kx = 0; kx < kw; ++kx) {
-                    int sx = x + kx - kcx;
+                    int sx = x - (kx - kcx);
                     if (sx < 0 || sx >= this->width()) {
                         continue;
                     }
-- 
2.43.0


From aaf368359f56615ae710ae8513e5d607de67d85a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:47 +0000
Subject: [PATCH 28/83] fix: convolving an image keeps its sensor bit depth

---
 include/huira_impl/images/image.ipp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/huira_impl/images/image.ipp b/include/huira_impl/images/image.ipp
index fb0ed1a..782b18a 100644
--- a/include/huira_impl/images/image.ipp
+++ b/include/huira_impl/images/image.ipp
@@ -643,7 +643,7 @@ void Image<PixelT>::convolve_direct_(const Image<PixelT>& kernel)
         }
     }
 
-    *this = std::move(result);
+    data_ = std::move(result.data_);
 }
 
 template <IsImagePixel PixelT>
@@ -754,6 +754,6 @@ void Image<PixelT>::convolve_fft_(const Image<PixelT>& kernel)
     fftwf_free(freq_a);
     fftwf_free(freq_b);
 
-    *this = std::move(result);
+    data_ = std::move(result.data_);
 }
 } // namespace huira
-- 
2.43.0


From 50c5a8f7ac9faec0afa7e27540943bb67bafac74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:07 +0000
Subject: [PATCH 29/83] fix: sampling an image at NaN, infinite or huge
 coordinates stays inside it

---
 include/huira_impl/images/image.ipp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/huira_impl/images/image.ipp b/include/huira_impl/images/image.ipp
index 782b18a..dbe407a 100644
--- a/include/huira_impl/images/image.ipp
+++ b/include/huira_impl/images/image.ipp
@@ -592,6 +592,10 @@ template <IsImagePixel PixelT>
 template <WrapMode W>
 float Image<PixelT>::wrap_coordinate(float coord, float max) const noexcept
 {
+    // A coordinate without a fractional part to wrap has no texel: use the first
+    if (std::isnan(coord) || (W != WrapMode::Clamp && std::isinf(coord))) {
+        return 0.0f;
+    }
     if constexpr (W == WrapMode::Clamp) {
         return std::clamp(coord, 0.0f, max);
     } else if constexpr (W == WrapMode::Repeat) {
@@ -602,9 +606,9 @@ float Image<PixelT>::wrap_coordinate(float coord, float max) const noexcept
         return coord;
     } else if constexpr (W == WrapMode::Mirror) {
         coord = std::fabs(coord);
-        int period = static_cast<int>(coord / max);
+        const bool odd_period = std::fmod(std::floor(coord / max), 2.0f) == 1.0f;
         coord = std::fmod(coord, max);
-        if (period % 2 == 1) {
+        if (odd_period) {
             coord = max - coord;
         }
         return std::clamp(coord, 0.0f, max);
-- 
2.43.0


From 1f363fa2d27538cf3591fe914efa757d493a00ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:07 +0000
Subject: [PATCH 30/83] fix: float to integer pixels rounds negatives correctly
 and never overflows

---
 .../huira_impl/images/io/convert_pixel.ipp    | 32 +++++++++++++------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/include/huira_impl/images/io/convert_pixel.ipp b/include/huira_impl/images/io/convert_pixel.ipp
index bb12849..cb32463 100644
--- a/include/huira_impl/images/io/convert_pixel.ipp
+++ b/include/huira_impl/images/io/convert_pixel.ipp
@@ -1,3 +1,4 @@
+#include <cmath>
 #include <limits>
 
 #include "huira/concepts/numeric_concepts.hpp"
@@ -99,20 +100,33 @@ float integer_to_float(T value, float min_range, float max_range)
 template <IsUnsignedInteger T>
 T float_to_integer(float value, float min_range, float max_range)
 {
-    float normalized = (value - min_range) / (max_range - min_range);
-    normalized = std::clamp(normalized, 0.0f, 1.0f);
-    return static_cast<T>(normalized * static_cast<float>(std::numeric_limits<T>::max()) + 0.5f);
+    const float normalized = (value - min_range) / (max_range - min_range);
+    if (!(normalized > 0.0f)) { // Also catches NaN
+        return std::numeric_limits<T>::min();
+    }
+    if (normalized >= 1.0f) {
+        return std::numeric_limits<T>::max();
+    }
+    return static_cast<T>(static_cast<double>(normalized) *
+                              static_cast<double>(std::numeric_limits<T>::max()) +
+                          0.5);
 }
 
 template <IsSignedInteger T>
 T float_to_integer(float value, float min_range, float max_range)
 {
-    float type_min = static_cast<float>(std::numeric_limits<T>::min());
-    float type_max = static_cast<float>(std::numeric_limits<T>::max());
-
-    float normalized = (value - min_range) / (max_range - min_range);
-    normalized = std::clamp(normalized, 0.0f, 1.0f);
+    const auto type_min = static_cast<double>(std::numeric_limits<T>::min());
+    const auto type_max = static_cast<double>(std::numeric_limits<T>::max());
 
-    return static_cast<T>(type_min + normalized * (type_max - type_min) + 0.5f);
+    const float normalized = (value - min_range) / (max_range - min_range);
+    if (!(normalized > 0.0f)) { // Also catches NaN
+        return std::numeric_limits<T>::min();
+    }
+    if (normalized >= 1.0f) {
+        return std::numeric_limits<T>::max();
+    }
+    // Round to nearest: a cast alone would round negative values towards zero
+    return static_cast<T>(
+        std::floor(type_min + static_cast<double>(normalized) * (type_max - type_min) + 0.5));
 }
 } // namespace huira
-- 
2.43.0


From 66ec2b49ab477aeec1fe490c60e0cc2dff6a6ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:07 +0000
Subject: [PATCH 31/83] fix: depth map of a scene at a single depth is not NaN

---
 include/huira/images/color_map.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/huira/images/color_map.hpp b/include/huira/images/color_map.hpp
index 51f9b4a..073d254 100644
--- a/include/huira/images/color_map.hpp
+++ b/include/huira/images/color_map.hpp
@@ -42,7 +42,9 @@ inline Image<huira::RGB> depth_map(Image<float> depth)
             output[i] = huira::RGB{1, 1, 1};
             continue;
         }
-        float d = 0.8f * (depth[i] - min_depth) / (max_depth - min_depth);
+        // A scene at a single depth has no range to map
+        const float range = max_depth - min_depth;
+        float d = range > 0.0f ? 0.8f * (depth[i] - min_depth) / range : 0.0f;
         output[i] = huira::RGB{d, d, d};
     }
     return output;
-- 
2.43.0


From 99ae279d2cca7915ce4d9fe99fde0f2740c3556c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:57 +0000
Subject: [PATCH 32/83] fix: scalar / Resolution divides by the resolution

---
 include/huira/core/types.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/huira/core/types.hpp b/include/huira/core/types.hpp
index c2938ca..25cc912 100644
--- a/include/huira/core/types.hpp
+++ b/include/huira/core/types.hpp
@@ -203,6 +203,6 @@ inline Vec2<TFloat> operator/(const Vec2<TFloat>& v, const Resolution& res)
 template <IsFloatingPoint TFloat>
 inline Vec2<TFloat> operator/(TFloat s, const Resolution& res)
 {
-    return Vec2<TFloat>(static_cast<TFloat>(res.width) / s, static_cast<TFloat>(res.height) / s);
+    return Vec2<TFloat>(s / static_cast<TFloat>(res.width), s / static_cast<TFloat>(res.height));
 }
 } // namespace huira
-- 
2.43.0


From c3109aa4c16c37745238ec31e4eb040a57f5deca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:31 +0000
Subject: [PATCH 33/83] fix: direct and indirect received power have their own
 frame buffer images

---
 include/huira/render/frame_buffer.hpp | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/include/huira/render/frame_buffer.hpp b/include/huira/render/frame_buffer.hpp
index 4e2c499..4c21321 100644
--- a/include/huira/render/frame_buffer.hpp
+++ b/include/huira/render/frame_buffer.hpp
@@ -52,17 +52,17 @@ class FrameBuffer {
 
     void enable_received_direct_power(bool enable = true)
     {
-        enable_(received_power_, TSpectral{0}, enable);
+        enable_(received_direct_power_, TSpectral{0}, enable);
     }
-    Image<TSpectral>& received_direct_power() { return received_power_; }
-    bool has_received_direct_power() const { return has_(received_power_); }
+    Image<TSpectral>& received_direct_power() { return received_direct_power_; }
+    bool has_received_direct_power() const { return has_(received_direct_power_); }
 
     void enable_received_indirect_power(bool enable = true)
     {
-        enable_(received_power_, TSpectral{0}, enable);
+        enable_(received_indirect_power_, TSpectral{0}, enable);
     }
-    Image<TSpectral>& received_indirect_power() { return received_power_; }
-    bool has_received_indirect_power() const { return has_(received_power_); }
+    Image<TSpectral>& received_indirect_power() { return received_indirect_power_; }
+    bool has_received_indirect_power() const { return has_(received_indirect_power_); }
 
     void enable_received_power(bool enable = true)
     {
@@ -96,6 +96,12 @@ class FrameBuffer {
         if (has_world_normals()) {
             world_normals_.fill(Vec3<float>{0, 0, 0});
         }
+        if (has_received_direct_power()) {
+            received_direct_power_.fill(TSpectral{0});
+        }
+        if (has_received_indirect_power()) {
+            received_indirect_power_.fill(TSpectral{0});
+        }
         if (has_received_power()) {
             received_power_.fill(TSpectral{0});
         }
@@ -115,6 +121,8 @@ class FrameBuffer {
     Image<Vec3<float>> camera_normals_;
     Image<Vec3<float>> world_normals_;
 
+    Image<TSpectral> received_direct_power_;
+    Image<TSpectral> received_indirect_power_;
     Image<TSpectral> received_power_;
     Image<SensorT> sensor_response_;
 
-- 
2.43.0


From b2577f22d1859f19c0a3440bf318b941149e2deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:31 +0000
Subject: [PATCH 34/83] fix: disabling the sensor response keeps the received
 power

---
 include/huira/render/frame_buffer.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/huira/render/frame_buffer.hpp b/include/huira/render/frame_buffer.hpp
index 4c21321..f1476e0 100644
--- a/include/huira/render/frame_buffer.hpp
+++ b/include/huira/render/frame_buffer.hpp
@@ -73,7 +73,9 @@ class FrameBuffer {
 
     void enable_sensor_response(bool enable = true)
     {
-        enable_(received_power_, TSpectral{0}, enable); // Sensor response requires received power
+        if (enable) {
+            enable_received_power(); // Sensor response requires received power
+        }
         enable_(sensor_response_, SensorT{}, enable);
     }
     Image<SensorT>& sensor_response() { return sensor_response_; }
-- 
2.43.0


From 9a258999009253258f141a074682498256cf75d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:06 +0000
Subject: [PATCH 35/83] fix: asteroid distances are converted from metres to
 astronomical units

---
 include/huira_impl/assets/unresolved/unresolved_asteroid.ipp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/huira_impl/assets/unresolved/unresolved_asteroid.ipp b/include/huira_impl/assets/unresolved/unresolved_asteroid.ipp
index c925429..919a9f1 100644
--- a/include/huira_impl/assets/unresolved/unresolved_asteroid.ipp
+++ b/include/huira_impl/assets/unresolved/unresolved_asteroid.ipp
@@ -179,8 +179,8 @@ void UnresolvedAsteroid<TSpectral>::resolve_irradiance(
             double phi2 = asteroid_phi2(alpha_rad);
             double reduced_mag = H_ - 2.5 * std::log10((1.0 - G_) * phi1 + G_ * phi2);
 
-            double r_au = r_m * AU<double>();
-            double delta_au = delta_m * AU<double>();
+            double r_au = r_m / AU<double>();
+            double delta_au = delta_m / AU<double>();
             double apparent_visual_mag = reduced_mag + 5.0 * std::log10(r_au * delta_au);
 
             TSpectral computed_irradiance =
-- 
2.43.0


From 718c97701bd7702027083b4fd184faabe642f922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:07 +0000
Subject: [PATCH 36/83] fix: a sphere light of a total power emits that power
 over all bins, not in each bin

---
 include/huira_impl/assets/lights/sphere_light.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/huira_impl/assets/lights/sphere_light.ipp b/include/huira_impl/assets/lights/sphere_light.ipp
index 1a7bd93..84183c1 100644
--- a/include/huira_impl/assets/lights/sphere_light.ipp
+++ b/include/huira_impl/assets/lights/sphere_light.ipp
@@ -72,7 +72,7 @@ void SphereLight<TSpectral>::set_spectral_power(const units::Watt& power)
 
     // L = Phi / (4 * pi^2 * r^2)
     float surface_area = 4.0f * PI<float>() * radius_ * radius_;
-    this->radiance_ = TSpectral{power_si / (PI<float>() * surface_area)};
+    this->radiance_ = TSpectral::from_total(power_si / (PI<float>() * surface_area));
 }
 
 template <IsSpectral TSpectral>
-- 
2.43.0


From a51bccef331c02cbfeb28277ae824d00e4e6202b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:24 +0000
Subject: [PATCH 37/83] fix: the phase angle of an unresolved sphere at
 opposition is not NaN

---
 include/huira_impl/assets/unresolved/unresolved_sphere.ipp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/huira_impl/assets/unresolved/unresolved_sphere.ipp b/include/huira_impl/assets/unresolved/unresolved_sphere.ipp
index 01292a0..d5e4cd7 100644
--- a/include/huira_impl/assets/unresolved/unresolved_sphere.ipp
+++ b/include/huira_impl/assets/unresolved/unresolved_sphere.ipp
@@ -1,3 +1,4 @@
+#include <algorithm>
 #include <cmath>
 #include <memory>
 #include <vector>
@@ -137,7 +138,7 @@ void UnresolvedLambertianSphere<TSpectral>::resolve_irradiance(
             TSpectral incident_irradiance =
                 light_->irradiance_at(self_transform.position, light_inst.transforms[0]);
 
-            float phase = std::acos(glm::dot(V, L));
+            float phase = std::acos(std::clamp(glm::dot(V, L), -1.0f, 1.0f));
             float A = PI<float>() * radius_ * radius_; // Cross-sectional area
             TSpectral reflectedPower =
                 albedo_ * A * incident_irradiance * lambert_phase_function(phase);
-- 
2.43.0


From fcb34bc5085cf4ae852318c81e2b038c5f300720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:24 +0000
Subject: [PATCH 38/83] fix: an unresolved Lambertian sphere reflects all of
 the power its albedo says

---
 include/huira_impl/assets/unresolved/unresolved_sphere.ipp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/huira_impl/assets/unresolved/unresolved_sphere.ipp b/include/huira_impl/assets/unresolved/unresolved_sphere.ipp
index d5e4cd7..c43312f 100644
--- a/include/huira_impl/assets/unresolved/unresolved_sphere.ipp
+++ b/include/huira_impl/assets/unresolved/unresolved_sphere.ipp
@@ -143,8 +143,9 @@ void UnresolvedLambertianSphere<TSpectral>::resolve_irradiance(
             TSpectral reflectedPower =
                 albedo_ * A * incident_irradiance * lambert_phase_function(phase);
 
+            // A Lambertian sphere's geometric albedo is 2/3 of its (Bond) albedo:
             TSpectral reflected_irradiance =
-                reflectedPower / (4 * PI<float>() * distance * distance);
+                (2.f / 3.f) * reflectedPower / (PI<float>() * distance * distance);
 
             if (!reflected_irradiance.valid()) {
                 HUIRA_THROW_ERROR("UnresolvedLambertianSphere::resolve_irradiance - Computed "
-- 
2.43.0


From 5cf5aa90090a352d57eeff03e3df33d9962083ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:24 +0000
Subject: [PATCH 39/83] fix: leaving a medium removes it from the stack
 wherever it is

---
 include/huira/volumes/medium_stack.hpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/include/huira/volumes/medium_stack.hpp b/include/huira/volumes/medium_stack.hpp
index 3c952a0..b429800 100644
--- a/include/huira/volumes/medium_stack.hpp
+++ b/include/huira/volumes/medium_stack.hpp
@@ -53,9 +53,18 @@ class MediumStack {
             return;
         }
 
-        if (size_ > 0 && entries_[size_ - 1].primitive == primitive) {
-            --size_;
-        } else if (size_ < CAPACITY) {
+        // Overlapping primitives may be left in any order, not only last in, first out
+        for (std::size_t i = size_; i > 0; --i) {
+            if (entries_[i - 1].primitive == primitive) {
+                for (; i < size_; ++i) {
+                    entries_[i - 1] = entries_[i];
+                }
+                --size_;
+                return;
+            }
+        }
+
+        if (size_ < CAPACITY) {
             entries_[size_] = {primitive, medium};
             ++size_;
         }
-- 
2.43.0


From b9f58d3f44601d9c37a5d03c991da0c947fb2967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:59 +0000
Subject: [PATCH 40/83] fix: an unresolved sphere near new phase is not refused
 for a negative phase function

---
 include/huira_impl/assets/unresolved/unresolved_sphere.ipp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/huira_impl/assets/unresolved/unresolved_sphere.ipp b/include/huira_impl/assets/unresolved/unresolved_sphere.ipp
index c43312f..4614723 100644
--- a/include/huira_impl/assets/unresolved/unresolved_sphere.ipp
+++ b/include/huira_impl/assets/unresolved/unresolved_sphere.ipp
@@ -25,7 +25,8 @@ namespace huira {
  */
 static inline float lambert_phase_function(float phase)
 {
-    return (std::sin(phase) + (PI<float>() - phase) * std::cos(phase)) / PI<float>();
+    // (rounding makes this slightly negative near new phase)
+    return std::max(0.f, (std::sin(phase) + (PI<float>() - phase) * std::cos(phase)) / PI<float>());
 };
 
 /**
-- 
2.43.0


From 8eacd9b541debb4f6772caf19a5c3703590a6820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:33 +0000
Subject: [PATCH 41/83] fix: find the real root of a cubic that has only one

The hyperbolic form used the wrong factor, and took the square root of a negative
number whenever the depressed cubic was monotonic, so that no crossing was found.
---
 include/huira_impl/render/trajectory_arc.ipp | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/include/huira_impl/render/trajectory_arc.ipp b/include/huira_impl/render/trajectory_arc.ipp
index 0a8b936..9b4fb66 100644
--- a/include/huira_impl/render/trajectory_arc.ipp
+++ b/include/huira_impl/render/trajectory_arc.ipp
@@ -345,17 +345,10 @@ TrajectoryArc::solve_cubic_(float a, float b, float c, float d, float t_min, flo
             }
         }
     } else if (discriminant < -eps) {
-        float sqrtQ3 = std::sqrt(-A / 3.0f);
-        float cosh_val = std::abs(B) / (sqrtQ3 * sqrtQ3 * sqrtQ3) * 1.5f;
-
-        float u;
-        if (A < 0.0f) {
-            float acosh_val = std::log(cosh_val + std::sqrt(cosh_val * cosh_val - 1.0f));
-            u = -2.0f * std::copysign(sqrtQ3, B) * std::cosh(acosh_val / 3.0f);
-        } else {
-            float asinh_val = std::log(cosh_val + std::sqrt(cosh_val * cosh_val + 1.0f));
-            u = -2.0f * std::copysign(std::sqrt(A / 3.0f), B) * std::sinh(asinh_val / 3.0f);
-        }
+        // Cardano's formula, with the terms arranged so that they do not cancel
+        float sqrt_d = std::sqrt(-discriminant / 108.0f);
+        float w = -std::copysign(std::cbrt(0.5f * std::abs(B) + sqrt_d), B);
+        float u = w - A / (3.0f * w);
 
         float t = u + offset;
         if (t >= t_min - eps && t <= t_max + eps) {
-- 
2.43.0


From 7b2871b48083d2aae95e3398d2224a736dc4b49a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:33 +0000
Subject: [PATCH 42/83] fix: an ellipsoid hit that the filter rejects leaves
 the ray's hit as it was

Only tfar was restored, so a transparent ellipsoid was still reported as hit, and
replaced the hit of a surface found earlier.
---
 include/huira_impl/geometry/ellipsoid.ipp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/huira_impl/geometry/ellipsoid.ipp b/include/huira_impl/geometry/ellipsoid.ipp
index 030b8a0..43ce850 100644
--- a/include/huira_impl/geometry/ellipsoid.ipp
+++ b/include/huira_impl/geometry/ellipsoid.ipp
@@ -144,8 +144,9 @@ void Ellipsoid<TSpectral>::intersect_callback(const RTCIntersectFunctionNArgumen
             return false;
         }
 
-        // Save original tfar in case the filter rejects this hit
+        // Save the original tfar and hit in case the filter rejects this hit
         float old_tfar = RTCRayN_tfar(ray, args->N, 0);
+        const RTCHit old_hit = rtcGetHitFromHitN(hit, args->N, 0);
         RTCRayN_tfar(ray, args->N, 0) = t_candidate;
 
         float t_u = t_candidate * L;
@@ -182,6 +183,7 @@ void Ellipsoid<TSpectral>::intersect_callback(const RTCIntersectFunctionNArgumen
 
         if (filter_valid == 0) {
             RTCRayN_tfar(ray, args->N, 0) = old_tfar; // Restore ray extent
+            rtcCopyHitToHitN(hit, &old_hit, args->N, 0);
             return false;
         }
         return true;
-- 
2.43.0


From 281ff29544fb8ade7aae850521d5d3700d07a35a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:00 +0000
Subject: [PATCH 43/83] fix: rotation getters of a node check the rotation
 mode, not the position mode

---
 include/huira_impl/scene/node.ipp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/huira_impl/scene/node.ipp b/include/huira_impl/scene/node.ipp
index 6cfb08d..d566be8 100644
--- a/include/huira_impl/scene/node.ipp
+++ b/include/huira_impl/scene/node.ipp
@@ -593,7 +593,7 @@ Vec3<double> Node<TSpectral>::get_static_position() const
 template <IsSpectral TSpectral>
 Rotation<double> Node<TSpectral>::get_static_rotation() const
 {
-    if (position_mode_ != TransformMode::MANUAL_TRANSFORM) {
+    if (rotation_mode_ != TransformMode::MANUAL_TRANSFORM) {
         HUIRA_THROW_ERROR(
             this->get_info() +
             " - cannot get static rotation when rotation mode is not MANUAL_TRANSFORM");
@@ -618,7 +618,7 @@ Vec3<double> Node<TSpectral>::get_static_velocity() const
 template <IsSpectral TSpectral>
 Vec3<double> Node<TSpectral>::get_static_angular_velocity() const
 {
-    if (position_mode_ != TransformMode::MANUAL_TRANSFORM) {
+    if (rotation_mode_ != TransformMode::MANUAL_TRANSFORM) {
         HUIRA_THROW_ERROR(
             this->get_info() +
             " - cannot get static angular velocity when rotation mode is not MANUAL_TRANSFORM");
@@ -639,7 +639,7 @@ std::string Node<TSpectral>::get_spice_origin() const
 template <IsSpectral TSpectral>
 std::string Node<TSpectral>::get_spice_frame() const
 {
-    if (position_mode_ != TransformMode::SPICE_TRANSFORM) {
+    if (rotation_mode_ != TransformMode::SPICE_TRANSFORM) {
         HUIRA_THROW_ERROR(this->get_info() +
                           " - cannot get spice frame when rotation mode is not SPICE_TRANSFORM");
     }
-- 
2.43.0


From bc05ff534c2da03d0d6145b05a92d3d864ea033a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:00 +0000
Subject: [PATCH 44/83] fix: set_angular_velocity(Vec3) gives rates in the
 parent frame, like its other overload

---
 include/huira_impl/scene/node.ipp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/huira_impl/scene/node.ipp b/include/huira_impl/scene/node.ipp
index d566be8..2295b75 100644
--- a/include/huira_impl/scene/node.ipp
+++ b/include/huira_impl/scene/node.ipp
@@ -161,6 +161,7 @@ void Node<TSpectral>::set_angular_velocity(const Vec3<double>& angular_velocity)
     }
 
     this->local_transform_.angular_velocity = angular_velocity;
+    this->body_frame_rates_ = false;
 }
 
 /**
-- 
2.43.0


From 9adc902907684cf8d2fbcdc2bcb09b4f170395ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:00 +0000
Subject: [PATCH 45/83] fix: set_manual_transform takes effect on a node that
 was not in manual mode

---
 include/huira_impl/scene/node.ipp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/huira_impl/scene/node.ipp b/include/huira_impl/scene/node.ipp
index 2295b75..6a9e651 100644
--- a/include/huira_impl/scene/node.ipp
+++ b/include/huira_impl/scene/node.ipp
@@ -223,6 +223,10 @@ void Node<TSpectral>::set_manual_transform(const Transform<double>& transform)
     HUIRA_LOG_INFO(this->get_info() + " - set_manual_transform(" + transform.to_string());
 
     this->local_transform_ = transform;
+    this->position_mode_ = TransformMode::MANUAL_TRANSFORM;
+    this->rotation_mode_ = TransformMode::MANUAL_TRANSFORM;
+    this->spice_origin_ = "";
+    this->spice_frame_ = "";
     this->body_frame_rates_ = false;
 }
 
-- 
2.43.0


From 2e37f9d8f08ce609ae5f1a82e6f6ced4e0e4d318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:25 +0000
Subject: [PATCH 46/83] fix: giving an object the name it already has keeps
 that name

---
 include/huira_impl/scene/name_registry.ipp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/huira_impl/scene/name_registry.ipp b/include/huira_impl/scene/name_registry.ipp
index 7ebb185..e33f4bd 100644
--- a/include/huira_impl/scene/name_registry.ipp
+++ b/include/huira_impl/scene/name_registry.ipp
@@ -57,12 +57,11 @@ void NameRegistry<T>::remove(std::shared_ptr<T> object)
 template <typename T>
 void NameRegistry<T>::set_name(std::shared_ptr<T> object, std::string name)
 {
-    std::string new_name = make_unique_name_(name);
     std::string old_name = object->name();
-
-    if (new_name == old_name) {
+    if (name == old_name) {
         return;
     }
+    std::string new_name = make_unique_name_(name);
 
     name_registry_.erase(old_name);
     name_registry_[new_name] = object;
-- 
2.43.0


From b0705ea6e7a60c2b96af59ef9b6b1782be49c939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:25 +0000
Subject: [PATCH 47/83] fix: deleting a frame or an instance no longer throws
 because it has no registered name

---
 include/huira/scene/name_registry.hpp   | 6 ++++++
 include/huira_impl/scene/frame_node.ipp | 7 ++++++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/include/huira/scene/name_registry.hpp b/include/huira/scene/name_registry.hpp
index e921009..8eff5c4 100644
--- a/include/huira/scene/name_registry.hpp
+++ b/include/huira/scene/name_registry.hpp
@@ -1,5 +1,6 @@
 #pragma once
 
+#include <algorithm>
 #include <memory>
 #include <string>
 #include <unordered_map>
@@ -21,6 +22,11 @@ class NameRegistry {
     void remove(std::shared_ptr<T> object);
     void set_name(std::shared_ptr<T> object, std::string name);
 
+    bool contains(const std::shared_ptr<T>& object) const
+    {
+        return std::find(objects_.begin(), objects_.end(), object) != objects_.end();
+    }
+
     std::size_t size() const { return objects_.size(); }
 
     auto begin() { return objects_.begin(); }
diff --git a/include/huira_impl/scene/frame_node.ipp b/include/huira_impl/scene/frame_node.ipp
index f75b271..01b22b9 100644
--- a/include/huira_impl/scene/frame_node.ipp
+++ b/include/huira_impl/scene/frame_node.ipp
@@ -55,7 +55,12 @@ void FrameNode<TSpectral>::delete_child(std::weak_ptr<Node<TSpectral>> child_wea
     auto it = std::find(children_.begin(), children_.end(), child);
     if (it != children_.end()) {
         HUIRA_LOG_INFO(this->get_info() + " - Deleting " + child->get_info());
-        this->scene_->node_registry_.remove(child);
+        // Only named nodes are registered, and the nodes of a model's graph have no scene:
+        if (this->scene_ && this->scene_->node_registry_.contains(child)) {
+            this->scene_->node_registry_.remove(child);
+        } else {
+            child->set_scene_owned(false);
+        }
         children_.erase(it);
     }
 }
-- 
2.43.0


From f80dd71e8bf6bfb3036e6ce843e748baf76e82da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:25 +0000
Subject: [PATCH 48/83] fix: deleting an asset also removes its instances
 inside models, which kept a dangling pointer

---
 include/huira/assets/model.hpp     | 1 +
 include/huira_impl/scene/scene.ipp | 5 +++++
 2 files changed, 6 insertions(+)

diff --git a/include/huira/assets/model.hpp b/include/huira/assets/model.hpp
index 8cddd63..2473366 100644
--- a/include/huira/assets/model.hpp
+++ b/include/huira/assets/model.hpp
@@ -61,6 +61,7 @@ class Model : public SceneObject<Model<TSpectral>> {
     void print_node_(const Node<TSpectral>* node, const std::string& prefix, bool is_last) const;
 
     friend class ModelLoader<TSpectral>;
+    friend class Scene<TSpectral>;
     friend class SceneView<TSpectral>;
 };
 
diff --git a/include/huira_impl/scene/scene.ipp b/include/huira_impl/scene/scene.ipp
index eb4445d..f84b55a 100644
--- a/include/huira_impl/scene/scene.ipp
+++ b/include/huira_impl/scene/scene.ipp
@@ -1149,6 +1149,11 @@ void Scene<TSpectral>::prune_graph_references_(TAssetPtr target_ptr)
     if (root_node_) {
         prune_references(root_node_.get());
     }
+    for (const auto& model : models_) {
+        if (model->root_node_) {
+            prune_references(model->root_node_.get());
+        }
+    }
 }
 
 /**
-- 
2.43.0


From 3e7fed688f97d5eed251f1eebe614c675b4fdf33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:18 +0000
Subject: [PATCH 49/83] fix: custom callbacks are refused, like manual values,
 when a child uses SPICE

---
 include/huira_impl/scene/node.ipp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/include/huira_impl/scene/node.ipp b/include/huira_impl/scene/node.ipp
index 6a9e651..820be83 100644
--- a/include/huira_impl/scene/node.ipp
+++ b/include/huira_impl/scene/node.ipp
@@ -292,6 +292,11 @@ template <IsSpectral TSpectral>
 template <IsPositionCallback TCallback, typename... Args>
 void Node<TSpectral>::set_custom_position_callback(Args&&... args)
 {
+    if (this->position_must_be_spice_()) {
+        HUIRA_THROW_ERROR(this->get_info() +
+                          " - cannot set a position callback when child has a spice_origin");
+    }
+
     position_callback_ = std::make_unique<TCallback>(std::forward<Args>(args)...);
     this->position_mode_ = TransformMode::POSITION_CALLBACK;
     this->spice_origin_ = "";
@@ -315,6 +320,11 @@ template <IsSpectral TSpectral>
 template <IsRotationCallback TCallback, typename... Args>
 void Node<TSpectral>::set_custom_rotation_callback(Args&&... args)
 {
+    if (this->rotation_must_be_spice_()) {
+        HUIRA_THROW_ERROR(this->get_info() +
+                          " - cannot set a rotation callback when child has a spice_frame");
+    }
+
     rotation_callback_ = std::make_unique<TCallback>(std::forward<Args>(args)...);
     this->rotation_mode_ = TransformMode::ROTATION_CALLBACK;
     this->spice_frame_ = "";
@@ -336,6 +346,11 @@ template <IsSpectral TSpectral>
 template <IsTransformCallback TCallback, typename... Args>
 void Node<TSpectral>::set_custom_state_callback(Args&&... args)
 {
+    if (this->rotation_must_be_spice_() || this->position_must_be_spice_()) {
+        HUIRA_THROW_ERROR(this->get_info() +
+                          " - cannot set a state callback when child has a spice_origin or spice_frame");
+    }
+
     transform_callback_ = std::make_unique<TCallback>(std::forward<Args>(args)...);
     this->position_mode_ = TransformMode::TRANSFORM_CALLBACK;
     this->rotation_mode_ = TransformMode::TRANSFORM_CALLBACK;
-- 
2.43.0


From a823f1b9d353297e44501c89589b98d650134b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:46 +0000
Subject: [PATCH 50/83] fix: set_fstop refuses values that are not positive and
 finite

---
 include/huira_impl/cameras/camera_model.ipp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/huira_impl/cameras/camera_model.ipp b/include/huira_impl/cameras/camera_model.ipp
index 2e77baf..fec9e49 100644
--- a/include/huira_impl/cameras/camera_model.ipp
+++ b/include/huira_impl/cameras/camera_model.ipp
@@ -565,6 +565,10 @@ float CameraModel<TSpectral>::get_projected_aperture_area(const Vec3<float>& dir
 template <IsSpectral TSpectral>
 void CameraModel<TSpectral>::set_fstop(float fstop)
 {
+    if (!(fstop > 0.f) || std::isinf(fstop)) {
+        HUIRA_THROW_ERROR("CameraModel::set_fstop - F-stop must be a positive finite value: " +
+                          std::to_string(fstop));
+    }
     units::Meter aperture_diameter(focal_length_ / fstop);
     units::SquareMeter aperture_area = PI<float>() * (aperture_diameter * aperture_diameter) / 4.f;
     this->aperture_->set_area(aperture_area);
-- 
2.43.0


From 060cee6cb37eb62e06bb4af9952bc6cf47beedfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:46 +0000
Subject: [PATCH 51/83] fix: set_harvey_shack_scatter refuses a fraction
 outside 0 to 1

---
 include/huira_impl/cameras/camera_model.ipp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/huira_impl/cameras/camera_model.ipp b/include/huira_impl/cameras/camera_model.ipp
index fec9e49..8e73b77 100644
--- a/include/huira_impl/cameras/camera_model.ipp
+++ b/include/huira_impl/cameras/camera_model.ipp
@@ -367,6 +367,11 @@ void CameraModel<TSpectral>::set_harvey_shack_scatter(float scatter_fraction,
                                                       float r0,
                                                       float radius)
 {
+    if (!(scatter_fraction >= 0.f && scatter_fraction <= 1.f)) {
+        HUIRA_THROW_ERROR(
+            "CameraModel::set_harvey_shack_scatter - Scatter fraction must be in the range [0, 1]: " +
+            std::to_string(scatter_fraction));
+    }
     scatter_fraction_ = scatter_fraction;
     scatter_falloff_exponent_ = falloff_exponent;
     r0_ = r0;
-- 
2.43.0


From 1bcf201f37e968eb183b585e1015d1fab01b7591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:46 +0000
Subject: [PATCH 52/83] fix: a constant density field refuses NaN coefficients

---
 include/huira/volumes/density/constant_density_field.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/huira/volumes/density/constant_density_field.hpp b/include/huira/volumes/density/constant_density_field.hpp
index 7dcb2c4..e0d777e 100644
--- a/include/huira/volumes/density/constant_density_field.hpp
+++ b/include/huira/volumes/density/constant_density_field.hpp
@@ -17,12 +17,12 @@ class ConstantDensityField : public DensityField<TSpectral> {
     explicit ConstantDensityField(TSpectral absorption, TSpectral scattering)
     {
         for (float val : absorption) {
-            if (val < 0.f) {
+            if (!(val >= 0.f)) {
                 HUIRA_THROW_ERROR("Absorption coefficients must be non-negative.");
             }
         }
         for (float val : scattering) {
-            if (val < 0.f) {
+            if (!(val >= 0.f)) {
                 HUIRA_THROW_ERROR("Scattering coefficients must be non-negative.");
             }
         }
-- 
2.43.0


From 3bf26b87dffcdbc9181d637956dab4ecc9dc4fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:46 +0000
Subject: [PATCH 53/83] fix: sphere lights refuse invalid spectral powers and
 radiances, like total powers

---
 include/huira_impl/assets/lights/sphere_light.ipp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/huira_impl/assets/lights/sphere_light.ipp b/include/huira_impl/assets/lights/sphere_light.ipp
index 84183c1..219d881 100644
--- a/include/huira_impl/assets/lights/sphere_light.ipp
+++ b/include/huira_impl/assets/lights/sphere_light.ipp
@@ -33,6 +33,10 @@ SphereLight<TSpectral>::SphereLight(
     : radius_(std::max(radius.to_si_f(), 1e-5f)), radiance_{spectral_radiance.to_si()}
 {
     HUIRA_LOG_INFO("SphereLight::SphereLight(radius, spectral_radiance)");
+    if (!this->radiance_.valid()) {
+        HUIRA_THROW_ERROR("SphereLight::SphereLight - Invalid spectral radiance: " +
+                          this->radiance_.to_string());
+    }
 }
 
 /**
@@ -81,6 +85,10 @@ void SphereLight<TSpectral>::set_spectral_power(
 {
     // Assuming your units system allows extracting the raw TSpectral
     TSpectral power_si = spectral_power.to_si();
+    if (!power_si.valid()) {
+        HUIRA_THROW_ERROR("SphereLight::set_spectral_power - Invalid spectral power: " +
+                          power_si.to_string());
+    }
     float surface_area = 4.0f * PI<float>() * radius_ * radius_;
     this->radiance_ = power_si / (PI<float>() * surface_area);
 }
-- 
2.43.0


From f2c5e40c22a6c138ed487a97866c5571f9ba5f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:23 +0000
Subject: [PATCH 54/83] fix: path tracing shared one motion-blur time between
 all tiles

---
 include/huira_impl/render/renderer.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/huira_impl/render/renderer.ipp b/include/huira_impl/render/renderer.ipp
index aaa8f07..461ddf4 100644
--- a/include/huira_impl/render/renderer.ipp
+++ b/include/huira_impl/render/renderer.ipp
@@ -137,7 +137,6 @@ Image<TSpectral> Renderer<TSpectral>::path_trace_(SceneView<TSpectral>& scene_vi
     int tiles_x = (fb_width + TILE_SIZE - 1) / TILE_SIZE;
     int tiles_y = (fb_height + TILE_SIZE - 1) / TILE_SIZE;
     int num_tiles = tiles_x * tiles_y;
-    float time = 0.f;
     const bool has_motion_blur = scene_view.temporal_samples_.size() > 1;
 
     tbb::parallel_for(
@@ -180,6 +179,7 @@ Image<TSpectral> Renderer<TSpectral>::path_trace_(SceneView<TSpectral>& scene_vi
                             Ray<TSpectral> ray = camera->cast_ray(Pixel{sx, sy}, sampler);
 
                             // Motion blur: randomize time sample per ray
+                            float time = 0.f;
                             if (has_motion_blur) {
                                 time = sampler.get_1d(); // [0, 1] maps to shutter interval
                             }
-- 
2.43.0


From 149819b3cd795b993d1f965a726f934c7fe4a406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:24 +0000
Subject: [PATCH 55/83] fix: path tracing drew light samples from one generator
 shared by all tiles

---
 include/huira_impl/render/renderer.ipp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/huira_impl/render/renderer.ipp b/include/huira_impl/render/renderer.ipp
index 461ddf4..bb6ab08 100644
--- a/include/huira_impl/render/renderer.ipp
+++ b/include/huira_impl/render/renderer.ipp
@@ -232,7 +232,7 @@ Image<TSpectral> Renderer<TSpectral>::path_trace_(SceneView<TSpectral>& scene_vi
                                                                       time);
 
                                             auto sample = light_instance.light->sample_li(
-                                                vol_isect, current_transform, this->sampler_);
+                                                vol_isect, current_transform, sampler);
 
                                             if (!sample) {
                                                 continue;
@@ -391,7 +391,7 @@ Image<TSpectral> Renderer<TSpectral>::path_trace_(SceneView<TSpectral>& scene_vi
                                             interpolate_transform(light_instance.transforms, time);
 
                                         auto sample = light_instance.light->sample_li(
-                                            isect, current_transform, this->sampler_);
+                                            isect, current_transform, sampler);
 
                                         if (!sample) {
                                             continue;
-- 
2.43.0


From b0ae3c6159d6adb245903e8560b95e1c23bfd2ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:39 +0000
Subject: [PATCH 56/83] fix: interpolating a light's transforms over the
 shutter dropped the rotation

---
 include/huira_impl/render/renderer.ipp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/huira_impl/render/renderer.ipp b/include/huira_impl/render/renderer.ipp
index bb6ab08..a9eeb1d 100644
--- a/include/huira_impl/render/renderer.ipp
+++ b/include/huira_impl/render/renderer.ipp
@@ -94,7 +94,8 @@ inline Transform<float> interpolate_transform(const std::vector<Transform<float>
     // Slerp rotation (assuming you are using glm::quat for rotations)
     auto quat = transforms[idx].rotation.local_to_parent_quaternion();
     auto next_quat = transforms[idx + 1].rotation.local_to_parent_quaternion();
-    result.rotation.from_local_to_parent(glm::slerp(quat, next_quat, frac));
+    result.rotation =
+        Rotation<float>::from_local_to_parent(glm::slerp(quat, next_quat, frac));
 
     // Scale interpolation
     // result.scale = transforms[idx].scale * (1.0f - frac) + transforms[idx + 1].scale * frac;
-- 
2.43.0


From b0c09969e8eab3764bc130c1ea9afb12e8dc8423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:03 +0000
Subject: [PATCH 57/83] fix: read out the sensor only when its channel and the
 received power are enabled

Rendering into a frame buffer without the sensor response wrote past the
empty image of the disabled channel.
---
 include/huira_impl/cameras/sensors/simple_sensor.ipp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/huira_impl/cameras/sensors/simple_sensor.ipp b/include/huira_impl/cameras/sensors/simple_sensor.ipp
index 737dc77..5b8a7a4 100644
--- a/include/huira_impl/cameras/sensors/simple_sensor.ipp
+++ b/include/huira_impl/cameras/sensors/simple_sensor.ipp
@@ -65,6 +65,10 @@ inline float noise_and_adc(float signal_e,
 template <IsSpectral TSpectral>
 void SimpleSensor<TSpectral>::readout(FrameBuffer<TSpectral>& fb, units::Second exposure_time) const
 {
+    if (!fb.has_received_power() || !fb.has_sensor_response()) {
+        return;
+    }
+
     Image<TSpectral>& received_power = fb.received_power();
     auto& output = fb.sensor_response();
     output.set_sensor_bit_depth(this->config_.bit_depth);
-- 
2.43.0


From 11687b93c7ee1abce1b9edb5b7e554d65c197909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:46 +0000
Subject: [PATCH 58/83] fix: let a stale TextureHandle report itself from
 resolution()

---
 include/huira/handles/materials/texture_handle.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/huira/handles/materials/texture_handle.hpp b/include/huira/handles/materials/texture_handle.hpp
index 6fb46b1..76338e8 100644
--- a/include/huira/handles/materials/texture_handle.hpp
+++ b/include/huira/handles/materials/texture_handle.hpp
@@ -22,6 +22,6 @@ class TextureHandle : public Handle<Texture<TPixel>> {
     TextureHandle() = delete;
     using Handle<Texture<TPixel>>::Handle;
 
-    Resolution resolution() const noexcept { return this->get_()->resolution(); }
+    Resolution resolution() const { return this->get_()->resolution(); }
 };
 } // namespace huira
-- 
2.43.0


From c478a1dfaa1b61fa467437dce6d88b46f7110fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:46 +0000
Subject: [PATCH 59/83] fix: let failures while collecting a view reach its
 creator

---
 include/huira_impl/scene/scene_view.ipp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/huira_impl/scene/scene_view.ipp b/include/huira_impl/scene/scene_view.ipp
index 091e9e4..669b0e7 100644
--- a/include/huira_impl/scene/scene_view.ipp
+++ b/include/huira_impl/scene/scene_view.ipp
@@ -408,7 +408,7 @@ void SceneView<TSpectral>::traverse_and_collect_(
         }
 
         const auto& asset_var = instance->asset();
-        std::visit([&](auto* raw_ptr) noexcept { handle_asset_ptr_(raw_ptr, render_transforms); },
+        std::visit([&](auto* raw_ptr) { handle_asset_ptr_(raw_ptr, render_transforms); },
                    asset_var);
     }
 
@@ -563,7 +563,7 @@ void SceneView<TSpectral>::traverse_model_graph_(
 
     if (auto instance = std::dynamic_pointer_cast<Instance<TSpectral>>(node)) {
         const auto& asset_var = instance->asset();
-        std::visit([&](auto* raw_ptr) noexcept { handle_asset_ptr_(raw_ptr, current_transforms); },
+        std::visit([&](auto* raw_ptr) { handle_asset_ptr_(raw_ptr, current_transforms); },
                    asset_var);
     }
 
-- 
2.43.0


From ee852b5914d2af284c3fff05b970297590dcc02c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:46 +0000
Subject: [PATCH 60/83] fix: do not end the program when the working directory
 cannot be restored

---
 include/huira_impl/core/spice.ipp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/huira_impl/core/spice.ipp b/include/huira_impl/core/spice.ipp
index 1efd6cf..13ee37a 100644
--- a/include/huira_impl/core/spice.ipp
+++ b/include/huira_impl/core/spice.ipp
@@ -97,7 +97,11 @@ inline void furnsh_relative_to_file(const fs::path& kernel_path)
     struct DirectoryGuard {
         fs::path original;
         DirectoryGuard() : original(fs::current_path()) {}
-        ~DirectoryGuard() { fs::current_path(original); }
+        ~DirectoryGuard()
+        {
+            std::error_code ec;
+            fs::current_path(original, ec);
+        }
     };
 
     DirectoryGuard guard;
-- 
2.43.0


From 9222a32b0a464d7436b2774f393f7a543f524168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:58 +0000
Subject: [PATCH 61/83] fix: report a crash, and dump the log, even without a
 working directory

---
 include/huira_impl/platform/get_log_path.ipp | 3 ++-
 include/huira_impl/util/logger.ipp           | 8 +++++---
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/huira_impl/platform/get_log_path.ipp b/include/huira_impl/platform/get_log_path.ipp
index d851450..ea1d16b 100644
--- a/include/huira_impl/platform/get_log_path.ipp
+++ b/include/huira_impl/platform/get_log_path.ipp
@@ -51,7 +51,8 @@ inline std::filesystem::path get_log_file_path(const std::string& filename)
     }
 
     // Default: current working directory for developer tools
-    return std::filesystem::current_path() / actual_filename;
+    std::error_code ec;
+    return std::filesystem::current_path(ec) / actual_filename;
 }
 
 } // namespace huira
diff --git a/include/huira_impl/util/logger.ipp b/include/huira_impl/util/logger.ipp
index a9542f2..18d73aa 100644
--- a/include/huira_impl/util/logger.ipp
+++ b/include/huira_impl/util/logger.ipp
@@ -239,7 +239,8 @@ inline std::string Logger::dump_to_file(const std::string& filepath)
     std::ofstream file(actual_path);
     if (!file) {
         // Try current directory as absolute fallback
-        actual_path = std::filesystem::current_path() / actual_path.filename();
+        std::error_code ec;
+        actual_path = std::filesystem::current_path(ec) / actual_path.filename();
         file.open(actual_path);
         if (!file) {
             return "";
@@ -381,9 +382,10 @@ inline bool Logger::is_console_warning_enabled()
 inline void Logger::output_crash_report(const std::string& log_path)
 {
     if (!log_path.empty()) {
+        std::error_code ec;
+        const std::filesystem::path full_path = std::filesystem::absolute(log_path, ec);
         std::cerr << red("HUIRA UNCAUGHT EXCEPTION") << "\n";
-        std::cerr << yellow(" - Log file written to: " +
-                            std::filesystem::absolute(log_path).string())
+        std::cerr << yellow(" - Log file written to: " + (ec ? log_path : full_path.string()))
                   << "\n";
         std::cerr << yellow(
             " - If this was a SPICE error, consider reviewing your SPICE configuration\n");
-- 
2.43.0


From cea3520d58a0f2fe0978b2ac8260a7fbe15bbd37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:58 +0000
Subject: [PATCH 62/83] fix: zero the bins that an initializer list leaves out

---
 include/huira_impl/core/spectral_bins.ipp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/huira_impl/core/spectral_bins.ipp b/include/huira_impl/core/spectral_bins.ipp
index 5306f12..5137a44 100644
--- a/include/huira_impl/core/spectral_bins.ipp
+++ b/include/huira_impl/core/spectral_bins.ipp
@@ -40,6 +40,7 @@ constexpr SpectralBins<N, Args...>::SpectralBins(std::initializer_list<float> in
     if (init.size() == 1) {
         data_.fill(*init.begin());
     } else {
+        data_.fill(0.0f);
         std::copy(init.begin(),
                   std::next(init.begin(), static_cast<std::ptrdiff_t>(std::min(init.size(), N))),
                   data_.begin());
-- 
2.43.0


From 02c6969ad01acba41e3f32580aee725fc5a03fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:58 +0000
Subject: [PATCH 63/83] fix: weight light hit after a scattering by the point
 of the scattering

---
 include/huira_impl/render/renderer.ipp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/huira_impl/render/renderer.ipp b/include/huira_impl/render/renderer.ipp
index a9eeb1d..ba45799 100644
--- a/include/huira_impl/render/renderer.ipp
+++ b/include/huira_impl/render/renderer.ipp
@@ -274,6 +274,7 @@ Image<TSpectral> Renderer<TSpectral>::path_trace_(SceneView<TSpectral>& scene_vi
 
                                         ray = Ray<TSpectral>(opt_mi->p, ps.wi);
                                         prev_bsdf_pdf = ps.p;
+                                        prev_isect = vol_isect;
                                         continue;
 
                                     } else {
-- 
2.43.0


From 3a29a786c844008d807312d2bd6221f074a4364b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:04 +0000
Subject: [PATCH 64/83] fix: release the top-level Embree scene once, also when
 building it fails

---
 include/huira/scene/scene_view.hpp      |  2 +-
 include/huira_impl/scene/scene_view.ipp | 15 ++++++---------
 2 files changed, 7 insertions(+), 10 deletions(-)

diff --git a/include/huira/scene/scene_view.hpp b/include/huira/scene/scene_view.hpp
index 3cbd429..659320c 100644
--- a/include/huira/scene/scene_view.hpp
+++ b/include/huira/scene/scene_view.hpp
@@ -115,7 +115,7 @@ class SceneView {
     void build_tlas_();
 
     std::shared_ptr<EmbreeDevice> device_ = nullptr;
-    RTCScene tlas_ = nullptr;
+    UniqueRTCScene tlas_;
 
     uint32_t MASK_GEOMETRY_ = 0x01;
     uint32_t MASK_LIGHT_ = 0x02;
diff --git a/include/huira_impl/scene/scene_view.ipp b/include/huira_impl/scene/scene_view.ipp
index 669b0e7..0c9c78a 100644
--- a/include/huira_impl/scene/scene_view.ipp
+++ b/include/huira_impl/scene/scene_view.ipp
@@ -150,9 +150,6 @@ template <IsSpectral TSpectral>
 SceneView<TSpectral>::~SceneView()
 {
     HUIRA_TRACE_SCOPE("SceneView::~SceneView");
-    if (tlas_) {
-        rtcReleaseScene(tlas_);
-    }
 }
 
 template <IsSpectral TSpectral>
@@ -196,7 +193,7 @@ SceneView<TSpectral>::intersect(const Ray<TSpectral>& ray, float time, unsigned
     args.context = &context; // Pass &context directly
 
     // Pass the args into the trace call
-    rtcIntersect1(tlas_, &rayhit, &args);
+    rtcIntersect1(tlas_.get(), &rayhit, &args);
 
     HitRecord rec;
     if (rayhit.hit.geomID != RTC_INVALID_GEOMETRY_ID) {
@@ -578,10 +575,10 @@ void SceneView<TSpectral>::traverse_model_graph_(
 template <IsSpectral TSpectral>
 void SceneView<TSpectral>::build_tlas_()
 {
-    tlas_ = rtcNewScene(device_->get());
+    tlas_.reset(rtcNewScene(device_->get()));
     bool motion_blur = (temporal_samples_.size() != 1);
     if (motion_blur) {
-        rtcSetSceneFlags(tlas_, RTC_SCENE_FLAG_DYNAMIC);
+        rtcSetSceneFlags(tlas_.get(), RTC_SCENE_FLAG_DYNAMIC);
     }
 
     // Add Primitives
@@ -609,7 +606,7 @@ void SceneView<TSpectral>::build_tlas_()
             rtcSetGeometryMask(inst_geom, MASK_GEOMETRY_);
 
             rtcCommitGeometry(inst_geom);
-            unsigned int geom_id = rtcAttachGeometry(tlas_, inst_geom);
+            unsigned int geom_id = rtcAttachGeometry(tlas_.get(), inst_geom);
             rtcReleaseGeometry(inst_geom);
 
             if (geom_id >= instance_mappings_.size()) {
@@ -689,7 +686,7 @@ void SceneView<TSpectral>::build_tlas_()
 
         rtcSetGeometryMask(inst_geom, MASK_LIGHT_);
         rtcCommitGeometry(inst_geom);
-        unsigned int geom_id = rtcAttachGeometry(tlas_, inst_geom);
+        unsigned int geom_id = rtcAttachGeometry(tlas_.get(), inst_geom);
         rtcReleaseGeometry(inst_geom);
 
         // Embree reference counts scenes; the instance holds a reference, so we release ours.
@@ -708,6 +705,6 @@ void SceneView<TSpectral>::build_tlas_()
         instance_mappings_[geom_id] = mapping;
     }
 
-    rtcCommitScene(tlas_);
+    rtcCommitScene(tlas_.get());
 }
 } // namespace huira
-- 
2.43.0


From 3895c32690600bde0fd4326796fb9198628b82c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:04 +0000
Subject: [PATCH 65/83] fix: release the sphere of a light when Embree fails to
 build it

---
 include/huira_impl/scene/scene_view.ipp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/include/huira_impl/scene/scene_view.ipp b/include/huira_impl/scene/scene_view.ipp
index 0c9c78a..d81ca14 100644
--- a/include/huira_impl/scene/scene_view.ipp
+++ b/include/huira_impl/scene/scene_view.ipp
@@ -637,8 +637,10 @@ void SceneView<TSpectral>::build_tlas_()
             continue;
         }
 
+        const float radius = sphere_light->radius().to_si_f();
+
         // Create a BLAS containing a single static sphere at the origin
-        RTCScene sphere_blas = rtcNewScene(device_->get());
+        UniqueRTCScene sphere_blas(rtcNewScene(device_->get()));
         RTCGeometry geom = rtcNewGeometry(device_->get(), RTC_GEOMETRY_TYPE_SPHERE_POINT);
         rtcSetGeometryMask(geom, MASK_LIGHT_);
 
@@ -653,6 +655,7 @@ void SceneView<TSpectral>::build_tlas_()
             geom, RTC_BUFFER_TYPE_VERTEX, 0, RTC_FORMAT_FLOAT4, 4 * sizeof(float), 1));
 
         if (!vertex) {
+            rtcReleaseGeometry(geom);
             RTCError err = rtcGetDeviceError(device_->get());
             HUIRA_THROW_ERROR("Embree failed to allocate sphere buffer. Error: " +
                               std::to_string(static_cast<int>(err)));
@@ -662,16 +665,16 @@ void SceneView<TSpectral>::build_tlas_()
         vertex[0] = 0.0f;
         vertex[1] = 0.0f;
         vertex[2] = 0.0f;
-        vertex[3] = sphere_light->radius().to_si_f();
+        vertex[3] = radius;
 
         rtcCommitGeometry(geom);
-        rtcAttachGeometry(sphere_blas, geom);
+        rtcAttachGeometry(sphere_blas.get(), geom);
         rtcReleaseGeometry(geom);
-        rtcCommitScene(sphere_blas);
+        rtcCommitScene(sphere_blas.get());
 
         // Instance the sphere BLAS into the TLAS
         RTCGeometry inst_geom = rtcNewGeometry(device_->get(), RTC_GEOMETRY_TYPE_INSTANCE);
-        rtcSetGeometryInstancedScene(inst_geom, sphere_blas);
+        rtcSetGeometryInstancedScene(inst_geom, sphere_blas.get());
         rtcSetGeometryTimeStepCount(inst_geom, static_cast<unsigned int>(N));
 
         if (N > 1) {
@@ -690,7 +693,7 @@ void SceneView<TSpectral>::build_tlas_()
         rtcReleaseGeometry(inst_geom);
 
         // Embree reference counts scenes; the instance holds a reference, so we release ours.
-        rtcReleaseScene(sphere_blas);
+        sphere_blas.reset();
 
         // Map geom_id back to lights array
         if (geom_id >= instance_mappings_.size()) {
-- 
2.43.0


From fee1b6e7f0ccd0d8c0efa5970c6e7c14b7e9d38b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:25 +0000
Subject: [PATCH 66/83] fix: free the JPEG buffer when compression fails

---
 include/huira_impl/images/io/jpeg_io.ipp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/huira_impl/images/io/jpeg_io.ipp b/include/huira_impl/images/io/jpeg_io.ipp
index 8edbae2..a633c65 100644
--- a/include/huira_impl/images/io/jpeg_io.ipp
+++ b/include/huira_impl/images/io/jpeg_io.ipp
@@ -264,6 +264,7 @@ write_image_jpeg(const fs::path& filepath, const ImageBundle<RGB>& output_image,
                     0) != 0) {
         std::string tj_err = tjGetErrorStr2(compressor);
         tjDestroy(compressor);
+        tjFree(jpeg_buf);
         HUIRA_THROW_ERROR("write_image_jpeg - Failed to compress JPEG: " + filepath.string() +
                           " (" + tj_err + ")");
     }
-- 
2.43.0


From b7c2b37cc653a18009c131a7400a80006d2910d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:08 +0000
Subject: [PATCH 67/83] fix: report a star catalog that could not be written

---
 include/huira_impl/stars/io/star_catalog.ipp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/huira_impl/stars/io/star_catalog.ipp b/include/huira_impl/stars/io/star_catalog.ipp
index f3f2db1..17059aa 100644
--- a/include/huira_impl/stars/io/star_catalog.ipp
+++ b/include/huira_impl/stars/io/star_catalog.ipp
@@ -54,6 +54,11 @@ inline void StarCatalog::write_star_data(const fs::path& filepath)
     out.write(reinterpret_cast<const char*>(valid_stars.data()),
               static_cast<std::streamsize>(valid_stars.size() * sizeof(StarData)));
 
+    out.close();
+    if (!out) {
+        HUIRA_THROW_ERROR("StarCatalog - Failed to write file: " + filepath.string());
+    }
+
     HUIRA_LOG_INFO("StarCatalog - " + std::to_string(valid_stars.size()) +
                    " stars written to: " + filepath.string());
 }
-- 
2.43.0


From 40db6c2bea5a24da49c6862048455ebb64453a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:08 +0000
Subject: [PATCH 68/83] fix: report a star catalog that ends too early

---
 include/huira_impl/stars/io/star_catalog.ipp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/huira_impl/stars/io/star_catalog.ipp b/include/huira_impl/stars/io/star_catalog.ipp
index 17059aa..6459442 100644
--- a/include/huira_impl/stars/io/star_catalog.ipp
+++ b/include/huira_impl/stars/io/star_catalog.ipp
@@ -73,7 +73,7 @@ inline StarCatalog StarCatalog::read_star_data(const fs::path& filepath, float m
     // Read and validate header
     HrscHeader header{};
     in.read(reinterpret_cast<char*>(&header), sizeof(header));
-    if (header.magic[0] != 'H' || header.magic[1] != 'R' || header.magic[2] != 'S' ||
+    if (!in || header.magic[0] != 'H' || header.magic[1] != 'R' || header.magic[2] != 'S' ||
         header.magic[3] != 'C') {
         HUIRA_THROW_ERROR("StarData - Invalid file format: " + filepath.string());
     }
@@ -93,6 +93,9 @@ inline StarCatalog StarCatalog::read_star_data(const fs::path& filepath, float m
         std::uint64_t mid = low + (high - low) / 2;
         in.seekg(static_cast<std::streamoff>(sizeof(HrscHeader) + mid * sizeof(StarData)));
         in.read(reinterpret_cast<char*>(&temp), sizeof(StarData));
+        if (!in) {
+            HUIRA_THROW_ERROR("StarCatalog - Unexpected end of file: " + filepath.string());
+        }
 
         if (temp.visual_magnitude <= maximum_magnitude) {
             low = mid + 1;
@@ -106,6 +109,9 @@ inline StarCatalog StarCatalog::read_star_data(const fs::path& filepath, float m
     in.seekg(static_cast<std::streamoff>(sizeof(HrscHeader)));
     in.read(reinterpret_cast<char*>(stars.data()),
             static_cast<std::streamsize>(low * sizeof(StarData)));
+    if (!in) {
+        HUIRA_THROW_ERROR("StarCatalog - Unexpected end of file: " + filepath.string());
+    }
 
     StarCatalog star_catalog(stars);
     star_catalog.set_catalog_type(header.catalog_type);
-- 
2.43.0


From 17099b67d94005a6861fe1f3feddf9cbbab073bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:08 +0000
Subject: [PATCH 69/83] fix: report a PNG file that could not be written
 completely

---
 include/huira_impl/images/io/png_io.ipp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/huira_impl/images/io/png_io.ipp b/include/huira_impl/images/io/png_io.ipp
index bd5c189..b475763 100644
--- a/include/huira_impl/images/io/png_io.ipp
+++ b/include/huira_impl/images/io/png_io.ipp
@@ -644,7 +644,10 @@ inline void write_image_png(const fs::path& filepath, const ImageBundle<RGB>& ou
 
     png_write_end(png_ptr, nullptr);
     png_destroy_write_struct(&png_ptr, &info_ptr);
-    fclose(fp);
+    if (fclose(fp) != 0) {
+        HUIRA_THROW_ERROR("write_image_png - Failed to write complete PNG data: " +
+                          filepath.string());
+    }
 }
 
 } // namespace huira
-- 
2.43.0


From 906fbf6c23b55700e10a0e4d523247c581a45d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:08 +0000
Subject: [PATCH 70/83] fix: report a JPEG file that could not be written
 completely

---
 include/huira_impl/images/io/jpeg_io.ipp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/huira_impl/images/io/jpeg_io.ipp b/include/huira_impl/images/io/jpeg_io.ipp
index a633c65..a5e4365 100644
--- a/include/huira_impl/images/io/jpeg_io.ipp
+++ b/include/huira_impl/images/io/jpeg_io.ipp
@@ -290,10 +290,10 @@ write_image_jpeg(const fs::path& filepath, const ImageBundle<RGB>& output_image,
 #endif
 
     std::size_t written = fwrite(jpeg_buf, 1, jpeg_size, fp);
-    fclose(fp);
+    const bool closed = fclose(fp) == 0;
     tjFree(jpeg_buf);
 
-    if (written != jpeg_size) {
+    if (written != jpeg_size || !closed) {
         HUIRA_THROW_ERROR("write_image_jpeg - Failed to write complete JPEG data: " +
                           filepath.string());
     }
-- 
2.43.0


From b0cdd651adce5a9f5d911765e80bac60ea97474e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:08 +0000
Subject: [PATCH 71/83] fix: report TIFF tiles that cannot be read

---
 include/huira_impl/images/io/tiff_io.ipp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/huira_impl/images/io/tiff_io.ipp b/include/huira_impl/images/io/tiff_io.ipp
index 4975918..17db09f 100644
--- a/include/huira_impl/images/io/tiff_io.ipp
+++ b/include/huira_impl/images/io/tiff_io.ipp
@@ -348,7 +348,10 @@ inline TIFFData read_tiff_raw_(const unsigned char* data, std::size_t size)
         if (planar_config == PLANARCONFIG_CONTIG) {
             for (uint32_t ty = 0; ty < height; ty += tile_height) {
                 for (uint32_t tx = 0; tx < width; tx += tile_width) {
-                    TIFFReadTile(tif.get(), tile_buf.data(), tx, ty, 0, 0);
+                    if (TIFFReadTile(tif.get(), tile_buf.data(), tx, ty, 0, 0) < 0) {
+                        HUIRA_THROW_ERROR("read_tiff_raw_ - Failed to read tile at " +
+                                          std::to_string(tx) + ", " + std::to_string(ty));
+                    }
 
                     uint32_t eff_tw = std::min(tile_width, width - tx);
                     uint32_t eff_th = std::min(tile_height, height - ty);
@@ -376,7 +379,11 @@ inline TIFFData read_tiff_raw_(const unsigned char* data, std::size_t size)
             for (uint16_t ch = 0; ch < samples_per_pixel; ++ch) {
                 for (uint32_t ty = 0; ty < height; ty += tile_height) {
                     for (uint32_t tx = 0; tx < width; tx += tile_width) {
-                        TIFFReadTile(tif.get(), tile_buf.data(), tx, ty, 0, ch);
+                        if (TIFFReadTile(tif.get(), tile_buf.data(), tx, ty, 0, ch) < 0) {
+                            HUIRA_THROW_ERROR("read_tiff_raw_ - Failed to read tile at " +
+                                              std::to_string(tx) + ", " + std::to_string(ty) +
+                                              " channel " + std::to_string(static_cast<int>(ch)));
+                        }
 
                         uint32_t eff_tw = std::min(tile_width, width - tx);
                         uint32_t eff_th = std::min(tile_height, height - ty);
-- 
2.43.0


From 8274cf79cea9733f5f65617f0494b48898369605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:08 +0000
Subject: [PATCH 72/83] fix: report a TIFF file that could not be written
 completely

---
 include/huira_impl/images/io/tiff_io.ipp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/huira_impl/images/io/tiff_io.ipp b/include/huira_impl/images/io/tiff_io.ipp
index 17db09f..fbfc76c 100644
--- a/include/huira_impl/images/io/tiff_io.ipp
+++ b/include/huira_impl/images/io/tiff_io.ipp
@@ -720,6 +720,11 @@ inline void write_image_tiff(const fs::path& filepath,
             HUIRA_THROW_ERROR("write_image_tiff - Failed to write scanline " + std::to_string(y));
         }
     }
+
+    if (!TIFFFlush(tif.get())) {
+        HUIRA_THROW_ERROR("write_image_tiff - Failed to write complete TIFF data: " +
+                          filepath.string());
+    }
 }
 /**
  * @brief Writes a monochrome float image to a TIFF file with optional metadata.
@@ -784,6 +789,11 @@ inline void write_image_tiff(const fs::path& filepath,
             HUIRA_THROW_ERROR("write_image_tiff - Failed to write scanline " + std::to_string(y));
         }
     }
+
+    if (!TIFFFlush(tif.get())) {
+        HUIRA_THROW_ERROR("write_image_tiff - Failed to write complete TIFF data: " +
+                          filepath.string());
+    }
 }
 
 /**
-- 
2.43.0


From 15862afba930fb391dce866b2f5c472ce64dacc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:08 +0000
Subject: [PATCH 73/83] fix: report a FITS file that could not be written
 completely

---
 include/huira_impl/images/io/fits_io.ipp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/huira_impl/images/io/fits_io.ipp b/include/huira_impl/images/io/fits_io.ipp
index b21d3f4..25e5562 100644
--- a/include/huira_impl/images/io/fits_io.ipp
+++ b/include/huira_impl/images/io/fits_io.ipp
@@ -670,6 +670,12 @@ inline void write_image_fits(const fs::path& filepath,
     long fpixel[2] = {1, 1};
     fits_write_pix(ff.fptr, TFLOAT, fpixel, npixels, buffer.data(), &status);
     detail::fits_check(status, "write pixels");
+
+    // Closing writes what CFITSIO still buffers
+    fitsfile* fptr = ff.fptr;
+    ff.fptr = nullptr;
+    fits_close_file(fptr, &status);
+    detail::fits_check(status, "close " + filepath.string());
 }
 
 } // namespace huira
-- 
2.43.0


From c77669af80f5a2dc57ba027646b55f3601cbec19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:21 +0000
Subject: [PATCH 74/83] fix: dump_to_file returns nothing when the log could
 not be written

---
 include/huira_impl/util/logger.ipp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/huira_impl/util/logger.ipp b/include/huira_impl/util/logger.ipp
index 18d73aa..59bee28 100644
--- a/include/huira_impl/util/logger.ipp
+++ b/include/huira_impl/util/logger.ipp
@@ -268,6 +268,9 @@ inline std::string Logger::dump_to_file(const std::string& filepath)
     }
 
     file.close();
+    if (!file) {
+        return "";
+    }
     return actual_path.string();
 }
 
-- 
2.43.0


From 7cc064ee48d206099c063e63f9237f92fcbdde96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:22 +0000
Subject: [PATCH 75/83] fix: read Tycho-2 observed positions and epochs from
 their columns

---
 include/huira_impl/stars/io/load_tycho2.ipp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/huira_impl/stars/io/load_tycho2.ipp b/include/huira_impl/stars/io/load_tycho2.ipp
index 875d761..73b2eee 100644
--- a/include/huira_impl/stars/io/load_tycho2.ipp
+++ b/include/huira_impl/stars/io/load_tycho2.ipp
@@ -89,19 +89,19 @@ inline std::vector<StarData> read_tycho2_dat(const fs::path& filepath)
                 star_data[i].RA = RA * PI<double>() / 180.;
                 star_data[i].DEC = DEC * PI<double>() / 180.;
             } else {
-                // Observed position at bytes 153-165 and 166-178
-                double RA = read_entry_(line, 153, 165);
-                double DEC = read_entry_(line, 166, 178);
+                // Observed position at bytes 152-164 and 165-177
+                double RA = read_entry_(line, 152, 164);
+                double DEC = read_entry_(line, 165, 177);
                 if (std::isnan(RA) || std::isnan(DEC)) {
                     continue;
                 }
                 star_data[i].RA = RA * PI<double>() / 180.;
                 star_data[i].DEC = DEC * PI<double>() / 180.;
 
-                // Epoch of observed position: epRA at bytes 179-183, epDE at 184-188
+                // Epoch of observed position: epRA at bytes 178-182, epDE at 183-187
                 // These are "epoch - 1990", so add 1990 to get Julian year
-                double epRA = read_entry_(line, 179, 183);
-                double epDE = read_entry_(line, 184, 188);
+                double epRA = read_entry_(line, 178, 182);
+                double epDE = read_entry_(line, 183, 187);
                 if (std::isnan(epRA) || std::isnan(epDE)) {
                     continue;
                 }
-- 
2.43.0


From b292227dfb32a6af2153801fcf8bed12e916cf03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:40 +0000
Subject: [PATCH 76/83] fix: a skipped Tycho-2 line leaves nothing in the next
 star, and the last line needs no newline

---
 include/huira_impl/stars/io/load_tycho2.ipp | 58 +++++++++++----------
 1 file changed, 30 insertions(+), 28 deletions(-)

diff --git a/include/huira_impl/stars/io/load_tycho2.ipp b/include/huira_impl/stars/io/load_tycho2.ipp
index 73b2eee..d338579 100644
--- a/include/huira_impl/stars/io/load_tycho2.ipp
+++ b/include/huira_impl/stars/io/load_tycho2.ipp
@@ -59,23 +59,25 @@ static bool is_valid_line_(const std::string& line)
 
 inline std::vector<StarData> read_tycho2_dat(const fs::path& filepath)
 {
-    std::vector<StarData> star_data(count_lines_(filepath));
+    std::vector<StarData> star_data;
+    star_data.reserve(count_lines_(filepath));
     std::ifstream file(filepath);
     if (!file.is_open()) {
         HUIRA_THROW_ERROR("read_tycho2_dat - Failed to open file: " + filepath.string());
     }
 
     std::string line;
-    std::size_t i = 0;
     while (std::getline(file, line)) {
         if (is_valid_line_(line)) {
+            StarData star;
+
             // Read identifer:
             int tyc1 = static_cast<int>(read_entry_(line, 0, 4));
             int tyc2 = static_cast<int>(read_entry_(line, 5, 10));
             int tyc3 = static_cast<int>(read_entry_(line, 11, 12));
-            star_data[i].id = pack_tycho2_id(static_cast<uint16_t>(tyc1),
-                                             static_cast<uint16_t>(tyc2),
-                                             static_cast<uint8_t>(tyc3));
+            star.id = pack_tycho2_id(static_cast<uint16_t>(tyc1),
+                                     static_cast<uint16_t>(tyc2),
+                                     static_cast<uint8_t>(tyc3));
 
             float epochRA = 2000.0;
             float epochDEC = 2000.0;
@@ -86,8 +88,8 @@ inline std::vector<StarData> read_tycho2_dat(const fs::path& filepath)
                 if (std::isnan(RA) || std::isnan(DEC)) {
                     continue;
                 }
-                star_data[i].RA = RA * PI<double>() / 180.;
-                star_data[i].DEC = DEC * PI<double>() / 180.;
+                star.RA = RA * PI<double>() / 180.;
+                star.DEC = DEC * PI<double>() / 180.;
             } else {
                 // Observed position at bytes 152-164 and 165-177
                 double RA = read_entry_(line, 152, 164);
@@ -95,8 +97,8 @@ inline std::vector<StarData> read_tycho2_dat(const fs::path& filepath)
                 if (std::isnan(RA) || std::isnan(DEC)) {
                     continue;
                 }
-                star_data[i].RA = RA * PI<double>() / 180.;
-                star_data[i].DEC = DEC * PI<double>() / 180.;
+                star.RA = RA * PI<double>() / 180.;
+                star.DEC = DEC * PI<double>() / 180.;
 
                 // Epoch of observed position: epRA at bytes 178-182, epDE at 183-187
                 // These are "epoch - 1990", so add 1990 to get Julian year
@@ -114,14 +116,14 @@ inline std::vector<StarData> read_tycho2_dat(const fs::path& filepath)
             double pmRA = read_entry_(line, 41, 48);
             double pmDEC = read_entry_(line, 49, 56);
             if (!std::isnan(pmRA)) {
-                star_data[i].pmRA = static_cast<float>(pmRA);
+                star.pmRA = static_cast<float>(pmRA);
             }
             if (!std::isnan(pmDEC)) {
-                star_data[i].pmDEC = static_cast<float>(pmDEC);
+                star.pmDEC = static_cast<float>(pmDEC);
             }
 
             // Normalize to epoch J2000.0
-            star_data[i].normalize_epoch(epochRA, epochDEC);
+            star.normalize_epoch(epochRA, epochDEC);
 
             // BT magnitude at bytes 110-116, VT at 123-129
             double BTmag = read_entry_(line, 110, 116);
@@ -129,34 +131,35 @@ inline std::vector<StarData> read_tycho2_dat(const fs::path& filepath)
             if (std::isnan(BTmag) && std::isnan(VTmag)) {
                 continue;
             }
-            star_data[i].process_magnitude(BTmag, VTmag);
-            i++;
+            star.process_magnitude(BTmag, VTmag);
+            star_data.push_back(star);
         }
     }
 
-    star_data.resize(i);
     return star_data;
 }
 
 inline std::vector<StarData> read_tycho2_suppl(const fs::path& filepath)
 {
-    std::vector<StarData> star_data(count_lines_(filepath));
+    std::vector<StarData> star_data;
+    star_data.reserve(count_lines_(filepath));
     std::ifstream file(filepath);
     if (!file.is_open()) {
         HUIRA_THROW_ERROR("read_tycho2_suppl - Failed to open file: " + filepath.string());
     }
 
     std::string line;
-    std::size_t i = 0;
     while (std::getline(file, line)) {
         if (is_valid_line_(line)) {
+            StarData star;
+
             // Read identifer:
             int tyc1 = static_cast<int>(read_entry_(line, 0, 4));
             int tyc2 = static_cast<int>(read_entry_(line, 5, 10));
             int tyc3 = static_cast<int>(read_entry_(line, 11, 12));
-            star_data[i].id = pack_tycho2_id(static_cast<uint16_t>(tyc1),
-                                             static_cast<uint16_t>(tyc2),
-                                             static_cast<uint8_t>(tyc3));
+            star.id = pack_tycho2_id(static_cast<uint16_t>(tyc1),
+                                     static_cast<uint16_t>(tyc2),
+                                     static_cast<uint8_t>(tyc3));
 
             // Supplement position at bytes 15-27 and 28-40
             double RA = read_entry_(line, 15, 27);
@@ -164,21 +167,21 @@ inline std::vector<StarData> read_tycho2_suppl(const fs::path& filepath)
             if (std::isnan(RA) || std::isnan(DEC)) {
                 continue;
             }
-            star_data[i].RA = RA * PI<double>() / 180.;
-            star_data[i].DEC = DEC * PI<double>() / 180.;
+            star.RA = RA * PI<double>() / 180.;
+            star.DEC = DEC * PI<double>() / 180.;
 
             // Proper motion at bytes 42-49 and 50-57
             double pmRA = read_entry_(line, 41, 48);
             double pmDEC = read_entry_(line, 49, 56);
             if (!std::isnan(pmRA)) {
-                star_data[i].pmRA = static_cast<float>(pmRA);
+                star.pmRA = static_cast<float>(pmRA);
             }
             if (!std::isnan(pmDEC)) {
-                star_data[i].pmDEC = static_cast<float>(pmDEC);
+                star.pmDEC = static_cast<float>(pmDEC);
             }
 
             // Normalize to epoch J2000.0
-            star_data[i].normalize_epoch(1991.25f, 1991.25f);
+            star.normalize_epoch(1991.25f, 1991.25f);
 
             // BT magnitude at bytes 83-89, VT at 96-102
             double BTmag = read_entry_(line, 83, 89);
@@ -186,12 +189,11 @@ inline std::vector<StarData> read_tycho2_suppl(const fs::path& filepath)
             if (std::isnan(BTmag) && std::isnan(VTmag)) {
                 continue;
             }
-            star_data[i].process_magnitude(BTmag, VTmag);
-            i++;
+            star.process_magnitude(BTmag, VTmag);
+            star_data.push_back(star);
         }
     }
 
-    star_data.resize(i);
     return star_data;
 }
 } // namespace huira
-- 
2.43.0


From 0d34c20336f110b7fe85a30ddc3ae4dc4f2e58db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:40 +0000
Subject: [PATCH 77/83] fix: report a Tycho-2 file that cannot be read to its
 end

---
 include/huira_impl/stars/io/load_tycho2.ipp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/huira_impl/stars/io/load_tycho2.ipp b/include/huira_impl/stars/io/load_tycho2.ipp
index d338579..7a6074a 100644
--- a/include/huira_impl/stars/io/load_tycho2.ipp
+++ b/include/huira_impl/stars/io/load_tycho2.ipp
@@ -135,6 +135,9 @@ inline std::vector<StarData> read_tycho2_dat(const fs::path& filepath)
             star_data.push_back(star);
         }
     }
+    if (file.bad()) {
+        HUIRA_THROW_ERROR("read_tycho2_dat - Failed to read file: " + filepath.string());
+    }
 
     return star_data;
 }
@@ -193,6 +196,9 @@ inline std::vector<StarData> read_tycho2_suppl(const fs::path& filepath)
             star_data.push_back(star);
         }
     }
+    if (file.bad()) {
+        HUIRA_THROW_ERROR("read_tycho2_suppl - Failed to read file: " + filepath.string());
+    }
 
     return star_data;
 }
-- 
2.43.0


From e9249e6ce29010b0e24763f55564ada88fbc3cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:26 +0000
Subject: [PATCH 78/83] fix: BMP reader: refuse impossible dimensions and
 headers, no overflow in sizes

A negative width, a width or header size close to 2^31 or 2^32, or a height
of INT_MIN passed the size checks through integer overflow; pixels were then
read outside the file.
---
 include/huira_impl/images/io/bmp_io.ipp | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/include/huira_impl/images/io/bmp_io.ipp b/include/huira_impl/images/io/bmp_io.ipp
index 3d68983..82d56a5 100644
--- a/include/huira_impl/images/io/bmp_io.ipp
+++ b/include/huira_impl/images/io/bmp_io.ipp
@@ -3,6 +3,7 @@
 #include <cstdio>
 #include <cstring>
 #include <filesystem>
+#include <limits>
 #include <utility>
 #include <vector>
 
@@ -65,7 +66,7 @@ inline BMPData read_bmp_raw_(const unsigned char* data, std::size_t size)
                           std::to_string(dib_size) + ")");
     }
 
-    if (size < 14 + dib_size) {
+    if (size - 14 < dib_size) {
         HUIRA_THROW_ERROR("read_bmp_raw_ - Data truncated in DIB header");
     }
 
@@ -92,6 +93,11 @@ inline BMPData read_bmp_raw_(const unsigned char* data, std::size_t size)
                           "), only 24 and 32 supported");
     }
 
+    if (raw_width <= 0 || raw_height == 0 || raw_height == std::numeric_limits<int32_t>::min()) {
+        HUIRA_THROW_ERROR("read_bmp_raw_ - Invalid BMP dimensions (" + std::to_string(raw_width) +
+                          " x " + std::to_string(raw_height) + ")");
+    }
+
     int width = static_cast<int>(raw_width);
     bool flip_vertical = (raw_height > 0);
     int height = (raw_height > 0) ? static_cast<int>(raw_height) : static_cast<int>(-raw_height);
@@ -102,7 +108,8 @@ inline BMPData read_bmp_raw_(const unsigned char* data, std::size_t size)
 
     // BMP rows are padded to 4-byte boundaries
     std::size_t row_stride =
-        (static_cast<std::size_t>(width * file_channels) + 3) & ~static_cast<std::size_t>(3);
+        (static_cast<std::size_t>(width) * static_cast<std::size_t>(file_channels) + 3) &
+        ~static_cast<std::size_t>(3);
 
     std::size_t required_size =
         static_cast<std::size_t>(pixel_offset) + row_stride * static_cast<std::size_t>(height);
@@ -115,17 +122,19 @@ inline BMPData read_bmp_raw_(const unsigned char* data, std::size_t size)
 
     // Convert from BGR(A) bottom-up to RGB(A) top-down
     std::vector<unsigned char> raw_data(static_cast<std::size_t>(width) *
-                                        static_cast<std::size_t>(height * out_channels));
+                                        static_cast<std::size_t>(height) *
+                                        static_cast<std::size_t>(out_channels));
 
     for (int y = 0; y < height; ++y) {
         int src_y = flip_vertical ? (height - 1 - y) : y;
         const unsigned char* src_row = pixel_data + static_cast<std::size_t>(src_y) * row_stride;
 
         for (int x = 0; x < width; ++x) {
-            std::size_t src_idx = static_cast<std::size_t>(x * file_channels);
-            std::size_t dst_idx =
-                (static_cast<std::size_t>(y * width) + static_cast<std::size_t>(x)) *
-                static_cast<std::size_t>(out_channels);
+            std::size_t src_idx =
+                static_cast<std::size_t>(x) * static_cast<std::size_t>(file_channels);
+            std::size_t dst_idx = (static_cast<std::size_t>(y) * static_cast<std::size_t>(width) +
+                                   static_cast<std::size_t>(x)) *
+                                  static_cast<std::size_t>(out_channels);
 
             // BMP stores BGR(A), convert to RGB(A)
             raw_data[dst_idx + 0] = src_row[src_idx + 2]; // R
-- 
2.43.0


From a7914a651239b92edbf1f49478f117ea153ef8b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:26 +0000
Subject: [PATCH 79/83] fix: TGA reader: never read or write outside its
 buffers

Palette indices outside the color map, indices without a color map, pixel and
palette depths it does not decode, and raw packets longer than the rest of the
image led to accesses outside the file or the pixel buffer.
---
 include/huira_impl/images/io/tga_io.ipp | 30 ++++++++++++++++++++++---
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/include/huira_impl/images/io/tga_io.ipp b/include/huira_impl/images/io/tga_io.ipp
index 2a2fd28..121dfb1 100644
--- a/include/huira_impl/images/io/tga_io.ipp
+++ b/include/huira_impl/images/io/tga_io.ipp
@@ -1,3 +1,4 @@
+#include <algorithm>
 #include <cstddef>
 #include <cstdint>
 #include <cstring>
@@ -114,6 +115,22 @@ inline TGAData read_tga_raw_(const unsigned char* data, std::size_t size)
         pos += cm_size;
     }
 
+    // Validate pixel format
+    if (is_color_mapped) {
+        if (color_map.empty() || (cm_bytes_per_entry != 3 && cm_bytes_per_entry != 4)) {
+            HUIRA_THROW_ERROR("read_tga_raw_ - Unsupported TGA color map (" +
+                              std::to_string(static_cast<int>(cm_length)) + " entries of " +
+                              std::to_string(static_cast<int>(cm_entry_size)) + " bits)");
+        }
+        if (pixel_depth != 8 && pixel_depth != 16) {
+            HUIRA_THROW_ERROR("read_tga_raw_ - Unsupported TGA color map index size (" +
+                              std::to_string(static_cast<int>(pixel_depth)) + " bits)");
+        }
+    } else if (is_gray ? pixel_depth != 8 : (pixel_depth != 24 && pixel_depth != 32)) {
+        HUIRA_THROW_ERROR("read_tga_raw_ - Unsupported TGA pixel depth (" +
+                          std::to_string(static_cast<int>(pixel_depth)) + " bits)");
+    }
+
     // Determine pixel format
     int file_channels;
     if (is_color_mapped) {
@@ -173,10 +190,13 @@ inline TGAData read_tga_raw_(const unsigned char* data, std::size_t size)
                 if (pos + bytes_to_read > size) {
                     HUIRA_THROW_ERROR("read_tga_raw_ - Unexpected end of RLE data");
                 }
-                std::memcpy(
-                    &pixel_indices[pixels_decoded * index_bytes], data + pos, bytes_to_read);
+                std::size_t pixels_to_copy =
+                    std::min(static_cast<std::size_t>(count), num_pixels - pixels_decoded);
+                std::memcpy(&pixel_indices[pixels_decoded * index_bytes],
+                            data + pos,
+                            pixels_to_copy * index_bytes);
                 pos += bytes_to_read;
-                pixels_decoded += static_cast<std::size_t>(count);
+                pixels_decoded += pixels_to_copy;
             }
         }
     } else {
@@ -211,6 +231,10 @@ inline TGAData read_tga_raw_(const unsigned char* data, std::size_t size)
                 } else if (pixel_depth == 16) {
                     std::memcpy(&index, &pixel_indices[src_pixel * 2], sizeof(uint16_t));
                 }
+                if (index < cm_first_index || index - cm_first_index >= cm_length) {
+                    HUIRA_THROW_ERROR("read_tga_raw_ - Color map index out of range (" +
+                                      std::to_string(static_cast<int>(index)) + ")");
+                }
                 index = static_cast<uint16_t>(index - cm_first_index);
                 const unsigned char* src_ptr =
                     &color_map[static_cast<std::size_t>(index) *
-- 
2.43.0


From 79016613339365576da417218600d4e366c970a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:26 +0000
Subject: [PATCH 80/83] fix: TGA reader: honour right-to-left pixel order

---
 include/huira_impl/images/io/tga_io.ipp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/huira_impl/images/io/tga_io.ipp b/include/huira_impl/images/io/tga_io.ipp
index 121dfb1..7c5605f 100644
--- a/include/huira_impl/images/io/tga_io.ipp
+++ b/include/huira_impl/images/io/tga_io.ipp
@@ -79,6 +79,7 @@ inline TGAData read_tga_raw_(const unsigned char* data, std::size_t size)
     int width = static_cast<int>(width_u16);
     int height = static_cast<int>(height_u16);
     bool top_origin = (descriptor & 0x20) != 0;
+    bool right_origin = (descriptor & 0x10) != 0;
 
     // Validate image type
     bool is_rle = (image_type == 9 || image_type == 10 || image_type == 11);
@@ -215,9 +216,10 @@ inline TGAData read_tga_raw_(const unsigned char* data, std::size_t size)
         int src_y = top_origin ? y : (height - 1 - y);
 
         for (int x = 0; x < width; ++x) {
+            int src_x = right_origin ? (width - 1 - x) : x;
             std::size_t src_pixel =
                 static_cast<std::size_t>(src_y) * static_cast<std::size_t>(width) +
-                static_cast<std::size_t>(x);
+                static_cast<std::size_t>(src_x);
             std::size_t dst_idx = (static_cast<std::size_t>(y) * static_cast<std::size_t>(width) +
                                    static_cast<std::size_t>(x)) *
                                   static_cast<std::size_t>(out_channels);
-- 
2.43.0


From df5538d445fb0e42d384e3813e4cda05f785c9bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:33 +0000
Subject: [PATCH 81/83] fix: HDR reader: honour the orientation given by the
 resolution line

---
 include/huira_impl/images/io/hdr_io.ipp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/include/huira_impl/images/io/hdr_io.ipp b/include/huira_impl/images/io/hdr_io.ipp
index 0b98c33..b41dabc 100644
--- a/include/huira_impl/images/io/hdr_io.ipp
+++ b/include/huira_impl/images/io/hdr_io.ipp
@@ -166,14 +166,21 @@ inline HDRData read_hdr_raw_(const unsigned char* data, std::size_t size)
         return false;
     };
 
+    bool bottom_to_top = false;
+    bool right_to_left = false;
+
     if (parse_resolution("-Y", "+X")) {
         /* Standard top-to-bottom, left-to-right */
     } else if (parse_resolution("+Y", "+X")) {
         /* Bottom-to-top variant */
+        bottom_to_top = true;
     } else if (parse_resolution("-Y", "-X")) {
         /* Right-to-left variant */
+        right_to_left = true;
     } else if (parse_resolution("+Y", "-X")) {
         /* Both flipped */
+        bottom_to_top = true;
+        right_to_left = true;
     } else {
         HUIRA_THROW_ERROR("read_hdr_raw_ - Unsupported resolution format: \"" + line + "\"");
     }
@@ -258,8 +265,10 @@ inline HDRData read_hdr_raw_(const unsigned char* data, std::size_t size)
         // Convert RGBE scanline to float RGB
         for (int x = 0; x < width; ++x) {
             std::size_t src = static_cast<std::size_t>(x) * 4;
-            std::size_t dst = (static_cast<std::size_t>(y) * static_cast<std::size_t>(width) +
-                               static_cast<std::size_t>(x)) *
+            int dst_x = right_to_left ? (width - 1 - x) : x;
+            int dst_y = bottom_to_top ? (height - 1 - y) : y;
+            std::size_t dst = (static_cast<std::size_t>(dst_y) * static_cast<std::size_t>(width) +
+                               static_cast<std::size_t>(dst_x)) *
                               3;
 
             rgbe_to_float_(&scanline[src], raw_data[dst], raw_data[dst + 1], raw_data[dst + 2]);
-- 
2.43.0


From fed818160912e5328cc91a4f84cdda18cead9895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:43 +0000
Subject: [PATCH 82/83] fix: path tracer: light reached by a delta BSDF sample
 gets full MIS weight

---
 include/huira_impl/render/renderer.ipp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/huira_impl/render/renderer.ipp b/include/huira_impl/render/renderer.ipp
index ba45799..29f8730 100644
--- a/include/huira_impl/render/renderer.ipp
+++ b/include/huira_impl/render/renderer.ipp
@@ -457,7 +457,10 @@ Image<TSpectral> Renderer<TSpectral>::path_trace_(SceneView<TSpectral>& scene_vi
                                     Vec3<float> bounce_origin =
                                         offset_intersection_(isect.position, bounce_normal);
 
-                                    prev_bsdf_pdf = bs.is_delta ? 0.0f : bs.pdf;
+                                    // Only the BSDF can sample a delta direction: full MIS weight
+                                    prev_bsdf_pdf =
+                                        bs.is_delta ? std::numeric_limits<float>::infinity()
+                                                    : bs.pdf;
                                     prev_isect = shading_isect;
 
                                     throughput = throughput * bs.value;
-- 
2.43.0


From e6134c7b8ac7da1a1fa8134fd872fa7195654eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:43 +0000
Subject: [PATCH 83/83] fix: path tracer: geometry ids are those of the first
 surface, not of later bounces

---
 include/huira_impl/render/renderer.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/huira_impl/render/renderer.ipp b/include/huira_impl/render/renderer.ipp
index 29f8730..7c388e3 100644
--- a/include/huira_impl/render/renderer.ipp
+++ b/include/huira_impl/render/renderer.ipp
@@ -340,7 +340,7 @@ Image<TSpectral> Renderer<TSpectral>::path_trace_(SceneView<TSpectral>& scene_vi
                                     break;
                                 } else {
 
-                                    if (s == 0) {
+                                    if (s == 0 && bounce == 0) {
                                         geometry_id = hit.geom_id;
                                     }
 
-- 
2.43.0

