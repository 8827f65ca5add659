#pragma once
#include <nudb/error.hpp>
#include <string>
inline std::string ename(nudb::error_code const& ec)
{
    using nudb::error;
    if(! ec) return "ok";
    if(ec == error::key_not_found) return "nf";
    if(ec == error::key_exists) return "exists";
    static std::pair<error, char const*> const t[] = {
#define E_(x) {error::x, #x}
        E_(short_read), E_(log_file_exists), E_(no_key_file), E_(too_many_buckets), E_(not_data_file),
        E_(not_key_file), E_(not_log_file), E_(different_version), E_(invalid_key_size), E_(invalid_block_size),
        E_(short_key_file), E_(short_bucket), E_(short_spill), E_(short_data_record), E_(short_value),
        E_(hash_mismatch), E_(invalid_load_factor), E_(invalid_capacity), E_(invalid_bucket_count),
        E_(invalid_bucket_size), E_(incomplete_data_file_header), E_(incomplete_key_file_header),
        E_(invalid_log_record), E_(invalid_log_spill), E_(invalid_log_offset), E_(invalid_log_index),
        E_(invalid_spill_size), E_(uid_mismatch), E_(appnum_mismatch), E_(key_size_mismatch), E_(salt_mismatch),
        E_(pepper_mismatch), E_(block_size_mismatch), E_(orphaned_value), E_(missing_value), E_(size_mismatch),
        E_(duplicate_value)
#undef E_
    };
    for(auto& e : t) if(ec == e.first) return e.second;
    if(ec.value() == ENOENT) return "enoent";
    if(ec.value() == EEXIST) return "eexist";
    // injected failures
    for(int c : {EIO, ENOSPC, EINTR, EACCES, EDQUOT, EROFS, ENOMEM, EFBIG, EAGAIN, EBADF, EINVAL, ENFILE, ETIMEDOUT})
        if(ec.value() == c) return "eio";
    return std::string(ec.category().name()) + ":" + std::to_string(ec.value());
}
