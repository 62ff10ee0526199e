// The original file survives failures and aborts when applying changes.
#include "../engine/sx.h"
#include "../models/fs.h"
#include "io.h"
#include "media.h"
#include <tagparser/backuphelper.h>
#include <tagparser/exceptions.h>
#include <tagparser/mediafileinfo.h>
#include <tagparser/progressfeedback.h>
#include <tagparser/tag.h>
#include <tagparser/tagvalue.h>
#include <c++utilities/io/nativefilestream.h>
#include <stdexcept>
using namespace TagParser;
using namespace CppUtilities;
//@fs=model
//! bound: MP3 (with ID3v1 and/or ID3v2 tags), FLAC, Ogg Vorbis, MP4 and Matroska files of up to 40 KiB with three arbitrary bytes of content; every single file operation (opening, writing a buffer, renaming, copying, removing, resizing) failing once or from then on, aborting or throwing from within every progress callback; rewriting in place, with backups in the same or another directory, with existing backups, and saving under another name
//! assume: a write failing leaves the file as it was before that write; file operations are those of NativeFileStream and std::filesystem, modelled in memory (writes are buffered up to 8 KiB, closing does not report errors - as with the real class)
//! outside: power failures, failures when reading, restoring across file systems when copying back fails

static std::string content(const std::string &path) { return fs_get(path); }
struct Job {
    media::Kind kind;
    bool force, saveAs, backupDir, existing;
    unsigned edit;
    unsigned failAt = 0, times = 1;
    bool sticky = false;
};
struct Outcome {
    enum { Success, Io, Fail, Abort, Other } kind = Success;
    bool critical = false;
    std::string path;
};
template <typename F> static Outcome run(const Job &job, const std::string &file, const std::string &target, F &&callback)
{
    Outcome o;
    Diagnostics diag;
    AbortableProgressFeedback parsing;
    MediaFileInfo info{ std::string(file) };
    info.open();
    info.parseEverything(diag, parsing);
    sx_assert(!hasWarning(diag), "the original file is valid");
    media::edit(info, job.kind, job.edit);
    info.setForceRewrite(job.force);
    if (job.saveAs) info.setSaveFilePath(std::string(target));
    if (job.backupDir) info.setBackupDirectory(std::string("bak"));
    info.setPreferredPadding(10);
    if (job.kind == media::Ogg) info.setPreferredPadding(0);
    info.setMinPadding(0);
    info.setMaxPadding(5000);
    diag.clear();
    if (job.failAt && !job.sticky)
        fs_fail_times(job.failAt, job.times);
    else if (job.failAt)
        fs_fail_at(job.failAt, job.sticky);
    AbortableProgressFeedback progress(std::forward<F>(callback));
    try {
        info.applyChanges(diag, progress);
    } catch (const OperationAbortedException &) {
        o.kind = Outcome::Abort;
    } catch (const Failure &) {
        o.kind = Outcome::Fail;
    } catch (const std::ios_base::failure &) {
        o.kind = Outcome::Io;
    } catch (const std::logic_error &) {
        o.kind = Outcome::Other;
    }
    o.critical = diag.level() >= DiagLevel::Critical;
    o.path = info.path();
    fs_fail_off();
    return o;
}
static const char *name(media::Kind k) { return media::extension(k); }
static Job job(bool smallSet)
{
    Job j;
    j.kind = static_cast<media::Kind>(sx_choice(media::KindCount, "kind"));
    j.edit = smallSet ? 0 : sx_choice(media::editCount(j.kind), "edit");
    const auto mode = sx_choice(3, "mode");
    j.saveAs = mode == 2;
    j.force = mode == 1;
    j.backupDir = mode == 1 && sx_flag("backupdir");
    j.existing = mode == 1 && !j.backupDir && sx_flag("existing");
    return j;
}
struct Setup {
    std::string original, expected, file, target;
    bool rewritten = false;
};
static Setup prepare(const Job &j)
{
    Setup s;
    const std::string ext = name(j.kind);
    s.file = "f" + ext;
    s.target = j.saveAs ? "g" + ext : s.file;
    s.original = media::make(j.kind);
    // what is written if nothing goes wrong
    fs_put("f" + ext, s.original);
    if (j.backupDir) fs_put("bak/other", "o");
    const auto o = run(j, s.file, s.target, [](AbortableProgressFeedback &) {});
    sx_assert(o.kind == Outcome::Success && !o.critical, "changes can be applied");
    s.expected = content(s.target);
    s.rewritten = j.saveAs;
    for (const auto &p : fs_list())
        if (p != s.file && p != s.target && p != "bak/other") {
            s.rewritten = true;
            sx_assert_eq(content(p), s.original, "backup holds the original file");
            fs_remove(p);
        }
    if (j.saveAs) {
        sx_assert_eq(content(s.file), s.original, "original file is not modified when saving under another name");
        fs_remove(s.target);
    }
    fs_put(s.file, s.original);
    if (j.existing) fs_put(s.file + ".bak", "existing");
    return s;
}
static void checkExisting(const Job &j, const Setup &s)
{
    if (j.existing) sx_assert_eq(content(s.file + ".bak"), "existing", "existing backup is kept");
    if (j.backupDir) sx_assert_eq(content("bak/other"), "o", "other files are kept");
}
static void checkOriginal(const Job &j, const Setup &s, const char *msg)
{
    if (s.rewritten) {
        sx_assert(fs_exists(s.file), msg);
        sx_assert_eq(content(s.file), s.original, msg);
    }
    checkExisting(j, s);
}

//@ quick=150 thorough=400 threads=6 reach=held,failed,sticky,saveas,copied
SX_HARNESS(apply_with_faults)
{
    auto j = job(false);
    const auto s = prepare(j);
    const unsigned n = j.failAt = 1 + sx_choice(80, "operation");
    const auto times = sx_choice(SX_THOROUGH ? 4 : 3, "times");
    j.sticky = times == 1;
    j.times = times > 1 ? times : 1;
    const bool sticky = times; // more than one operation fails
    const auto o = run(j, s.file, s.target, [](AbortableProgressFeedback &) {});
    if (!fs_fault_hit()) {
        sx_assert(o.kind == Outcome::Success && !o.critical, "no failure without fault");
        sx_assert_eq(content(s.target), s.expected, "result");
        sx_reach("held");
        checkExisting(j, s);
        return;
    }
    sx_assume(n <= 79); // all operations are covered
    if (o.kind == Outcome::Success) {
        // either it was possible to do it in another way or it is reported as critical
        if (!o.critical)
            sx_assert_eq(content(s.target), s.expected, "file is complete unless failure is reported");
        else
            sx_assert(fs_fault_op().compare(0, 6, "resize") == 0, "only truncating may fail without exception");
        if (fs_fault_op().compare(0, 6, "rename") == 0) sx_reach("copied");
        checkExisting(j, s);
        return;
    }
    sx_assert(o.kind == Outcome::Io || o.kind == Outcome::Fail, "kind of exception");
    sx_assert(o.critical || !s.rewritten, "failure is reported as critical");
    if (!sticky || j.saveAs) {
        checkOriginal(j, s, "original file is restored");
        sx_reach("failed");
        if (j.saveAs) sx_reach("saveas");
    } else if (s.rewritten) {
        // nothing works anymore: the original is kept somewhere
        bool found = false;
        for (const auto &p : fs_list()) found = found || content(p) == s.original;
        sx_assert(found, "original content is not lost");
        checkExisting(j, s);
        sx_reach("sticky");
    }
}

//@ quick=60 thorough=300 threads=6 reach=aborted,finished,thrown,percentage
SX_HARNESS(apply_aborted)
{
    const auto j = job(false);
    const auto s = prepare(j);
    const unsigned n = 1 + sx_choice(40, "callback");
    const bool raise = sx_flag("throw");
    unsigned calls = 0, percentage = 0;
    std::string step;
    bool reached = false;
    const auto o = run(j, s.file, s.target, [&](AbortableProgressFeedback &p) {
        sx_assert(p.stepPercentage() <= 100, "percentage is at most 100");
        if (p.step() != step) {
            step = p.step();
            percentage = 0;
        }
        sx_assert(p.stepPercentage() >= percentage || !p.stepPercentage(), "percentage does not decrease within a step");
        percentage = p.stepPercentage();
        if (percentage > 1 && percentage < 100) sx_reach("percentage");
        if (++calls != n) return;
        reached = true;
        if (raise) throw std::logic_error("callback");
        p.tryToAbort();
    });
    if (o.kind == Outcome::Success) {
        sx_assert(!reached || !raise, "exceptions of callbacks are not swallowed");
        sx_assert_eq(content(s.target), s.expected, "file is complete unless aborted");
        sx_reach("finished");
        return;
    }
    sx_assert(reached, "not aborted on its own");
    sx_assume(n < 40);
    sx_assert(o.kind == (raise ? Outcome::Other : Outcome::Abort), "kind of exception");
    checkOriginal(j, s, "original file is restored");
    unsigned expectedFiles = 1 + j.backupDir + j.existing;
    for (const auto &p : fs_list()) expectedFiles -= !j.saveAs || p != s.target;
    sx_assert(!expectedFiles, "no backup is left behind");
    if (raise)
        sx_reach("thrown");
    else
        sx_reach("aborted");
}

// the backup helper on its own
//@ quick=30 thorough=60 threads=4 reach=created,failed,copied,numbered,lost
SX_HARNESS(backup_helper)
{
    static const char *const names[] = { "f.mp3", "d/f.mp3", "d.x/f", "d.x/f.g.mp3" };
    static const char *const dirs[] = { "", "d.x/", "/w/d.x/", "none/" };
    const auto nameIndex = sx_choice(4, "name");
    const std::string path = names[nameIndex];
    const auto dirIndex = sx_choice(4, "dir");
    const std::string dir = std::string(dirs[dirIndex]).substr(0, std::string(dirs[dirIndex]).size() - (dirIndex ? 1 : 0));
    const auto data = "orig" + sx_string(2, "content");
    fs_put(path, data);
    const auto slash = path.rfind('/');
    const auto parent = slash == std::string::npos ? std::string() : path.substr(0, slash + 1);
    const auto file = path.substr(parent.size());
    const auto dot = file.rfind('.');
    const auto base = file.substr(0, dot), ext = dot == std::string::npos ? std::string() : file.substr(dot);
    const auto backupParent = dirIndex == 0 ? parent : dirIndex == 2 ? std::string("d.x/") : parent + dirs[dirIndex];
    fs_put("d/keep", "o");
    fs_put("d.x/keep", "o");
    if (dirIndex == 1 || dirIndex == 2) fs_put(backupParent + "other", "o");
    // backups already present
    const auto present = sx_choice(3, "present");
    auto nth = [&](unsigned i) {
        if (dirIndex == 0) return path + (i ? "." + std::to_string(i) : std::string()) + ".bak";
        return backupParent + (i ? base + "." + std::to_string(i) + ext : file);
    };
    // a backup directory which is the directory of the file itself: the first name is taken by the file
    const unsigned offset = nth(0) == path ? 1 : 0;
    if (dirIndex != 3)
        for (unsigned i = 0; i < present; ++i) fs_put(nth(i + offset), "present" + std::to_string(i));
    const auto before = fs_list();
    const auto n = sx_choice(6, "operation");
    const bool sticky = n && sx_flag("sticky");
    NativeFileStream original, backup;
    original.exceptions(std::ios_base::failbit | std::ios_base::badbit);
    original.open(path, std::ios_base::in | std::ios_base::out | std::ios_base::binary);
    std::string backupPath;
    const unsigned times = n && !sticky ? 1 + sx_choice(3, "times") : 1;
    if (n && !sticky)
        fs_fail_times(n, times);
    else
        fs_fail_at(n, sticky);
    bool ok = false;
    try {
        BackupHelper::createBackupFile(dir, path, backupPath, original, backup);
        ok = true;
    } catch (const std::ios_base::failure &) {
    }
    const bool hit = fs_fault_hit();
    fs_fail_off();
    if (dirIndex != 3)
        for (unsigned i = 0; i < present; ++i) sx_assert_eq(fs_get(nth(i + offset)), "present" + std::to_string(i), "existing backups are kept");
    if (!ok) {
        sx_assert(hit || dirIndex == 3, "backup can be created");
        if ((sticky || times > 1) && !fs_exists(path)) {
            sx_assert_eq(fs_get(backupPath), data, "original content is not lost");
            sx_reach("lost");
            return;
        }
        sx_assert_eq(fs_get(path), data, "original is kept if no backup can be created");
        sx_reach("failed");
        return;
    }
    sx_assert(dirIndex != 3, "directory for backups is required");
    auto expectedPath = nth(present + offset);
    if (dirIndex == 2) expectedPath = "/w/" + expectedPath;
    sx_assert_eq(backupPath, expectedPath, "name of backup");
    sx_assert_eq(fs_get(backupPath), data, "backup holds the original content");
    sx_assert(backup.is_open() && !original.is_open(), "streams");
    std::string read(data.size(), '\0');
    backup.read(read.data(), static_cast<std::streamsize>(read.size()));
    sx_assert_eq(read, data, "backup can be read");
    sx_assert(backup.peek() == std::char_traits<char>::eof(), "backup has the original size");
    backup.clear();
    if (present) sx_reach("numbered");
    sx_reach(hit ? "copied" : "created");
    // write something else, restore
    original.open(path, std::ios_base::out | std::ios_base::binary | std::ios_base::trunc);
    original << "new";
    const auto m = sx_choice(4, "operation");
    const bool sticky2 = m && sx_flag("sticky");
    if (m && !sticky2)
        fs_fail_times(m, 1 + sx_choice(3, "times"));
    else
        fs_fail_at(m, sticky2);
    bool restored = false;
    try {
        BackupHelper::restoreOriginalFileFromBackupFile(path, backupPath, original, backup);
        restored = true;
    } catch (const std::ios_base::failure &) {
    }
    const bool hit2 = fs_fault_hit();
    fs_fail_off();
    sx_assert(restored || hit2, "backup can be restored");
    sx_assert(!original.is_open() && !backup.is_open(), "streams are closed");
    if (restored)
        sx_assert_eq(fs_get(path), data, "original content is restored");
    else
        sx_assert_eq(fs_get(backupPath), data, "backup is kept if restoring fails");
    for (const auto &p : before)
        if (p != path) sx_assert(fs_exists(p), "other files are kept");
}

// paths and file URLs denote the same files
//@ quick=30 thorough=60 threads=4 reach=url
SX_HARNESS(file_urls)
{
    const auto j = job(false);
    const auto s = prepare(j);
    const auto o = run(j, "file:/" + s.file, j.saveAs ? "file:/" + s.target : s.target, [](AbortableProgressFeedback &) {});
    sx_assert(o.kind == Outcome::Success && !o.critical, "changes can be applied");
    sx_assert_eq(content(s.target), s.expected, "result");
    if (j.saveAs) sx_assert_eq(content(s.file), s.original, "original file is not modified when saving under another name");
    checkExisting(j, s);
    for (const auto &p : fs_list()) sx_assert(p.compare(0, 5, "file:") != 0, "no file is named like an URL");
    sx_reach("url");
}

// parts of paths
//@ quick=30 thorough=60 threads=2 reach=directory,extension,none
SX_HARNESS(path_parts)
{
    static const char chars[] = { 'a', '.', '/', '\\' };
    std::string path;
    const auto n = sx_choice(6, "length");
    for (unsigned i = 0; i < n; ++i) path += chars[sx_choice(4, "char")];
    size_t sep = std::string::npos, dot = std::string::npos;
    for (size_t i = 0; i < path.size(); ++i)
        if (path[i] == '/' || path[i] == '\\')
            sep = i, dot = std::string::npos;
        else if (path[i] == '.')
            dot = i;
    const auto name = sep == std::string::npos ? path : path.substr(sep + 1);
    const auto ext = dot == std::string::npos ? std::string() : path.substr(dot);
    const auto check = [&](const BasicFileInfo &f) {
        sx_assert(f.path() == path, "path");
        sx_assert(f.fileName() == name, "file name");
        sx_assert(f.extension() == ext, "extension");
        sx_assert(f.fileName(true) == name.substr(0, name.size() - ext.size()), "file name without extension");
        sx_assert(f.pathWithoutExtension() == path.substr(0, path.size() - ext.size()), "path without extension");
        sx_assert(f.containingDirectory() == (sep == std::string::npos ? std::string() : path.substr(0, sep)), "containing directory");
    };
    BasicFileInfo f{ std::string(path) };
    check(f);
    BasicFileInfo g;
    g.setPath(std::string_view(path));
    check(g);
    BasicFileInfo h(std::string_view("other.x"));
    h.setPath(std::string(path));
    check(h);
    h.reportPathChanged(std::string_view("x"));
    h.reportPathChanged(std::string(path));
    check(h);
    if (sep != std::string::npos) sx_reach("directory");
    sx_reach(ext.empty() ? "none" : "extension");
}
