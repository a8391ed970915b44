#include <um2/common/logger.hpp>
// Keep the log to errors without decoration; rejections then end the run only if asked to.
static void quiet(bool exit_on_error)
{
  um2::settings::logger::level = um2::logger::levels::error;
  um2::settings::logger::timestamped = false;
  um2::settings::logger::colorized = false;
  um2::settings::logger::exit_on_error = exit_on_error;
}
