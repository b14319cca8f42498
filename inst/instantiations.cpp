// Explicit instantiations of the repository's public templates, so that every member function of
// each is present in the analysed module whether or not the library itself uses it.
#include <string>
#include <vector>
#include <k52/common/cache.h>
#include <k52/common/settings_manager.h>
#include <k52/dsp/cwt.h>
#include <k52/dsp/wavelet.h>
#ifdef BUILD_WITH_BOOST_THREAD
#include <parallel/thread/thread_worker_pool.h>
template class k52::parallel::thread::ThreadSafeQueue<k52::parallel::thread::ThreadWorkerPoolTask>;
template class k52::parallel::thread::ThreadSafeQueue<std::string>;
template class k52::parallel::thread::Worker<k52::parallel::thread::ThreadWorkerPoolTask>;
template class k52::parallel::thread::ThreadWorkerPoolTemplated<k52::parallel::thread::ThreadWorkerPoolTask>;
#endif

template class k52::common::Cache<std::string, std::string>;
template class k52::common::Cache<std::vector<bool>, double>;

namespace k52
{
template int SettingsManager::get<int>(const std::string&) const;
template double SettingsManager::get<double>(const std::string&) const;
template bool SettingsManager::get<bool>(const std::string&) const;
template std::string SettingsManager::get<std::string>(const std::string&) const;
template int SettingsManager::get<int>(const std::string&, const int&) const;
template double SettingsManager::get<double>(const std::string&, const double&) const;
template bool SettingsManager::get<bool>(const std::string&, const bool&) const;
template std::string SettingsManager::get<std::string>(const std::string&, const std::string&) const;
template bool SettingsManager::put<int>(const std::string&, const int&);
template bool SettingsManager::put<double>(const std::string&, const double&);
template bool SettingsManager::put<bool>(const std::string&, const bool&);
template bool SettingsManager::put<std::string>(const std::string&, const std::string&);
}

template std::vector<double> k52::dsp::Wavelet::transform<double>(std::vector<double>::const_iterator);
template std::vector<float> k52::dsp::Wavelet::transform<float>(std::vector<float>::const_iterator);

namespace k52_instantiations
{
struct Expose : k52::SettingsManager
{
    Expose(const std::string& f) : k52::SettingsManager(f) {}
    Expose(int n, const char* a[]) : k52::SettingsManager(n, a) {}
};
void use_settings(const std::string& f, int n, const char* a[])
{
    Expose x(f), y(n, a);
}
}
