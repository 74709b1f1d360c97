#!/usr/bin/env python3
"""Regenerates known_findings.txt: the repaired defects (with their commits in /repo) and the recorded ones."""
import os, subprocess
FIXED = [  # property, subject of the commit, what failed
 ("C02", "apply read-only marks and source locations through config block views", "marking an entry read-only through a view did not protect it, and a view did not report its parent's read-only marks or locations (config_block.cxx)"),
 ("C03", "make block-global entries accessible through config block views", "block-global entries were listed by a view but could not be read, described, merged or printed through it (config_block.cxx)"),
 ("C06", "accept one and two character names in configuration files", "one- and two-character keys and block names were rejected, also when written by write_config_file (config_parser.cxx)"),
 ("C06", "do not look for included configuration files in PATH", "included files were searched for in $PATH before the configuration search path (config_parser.cxx)"),
 ("C08", "only words are configuration file directives", "text after a leading operator, as in '= endblock', was taken for a directive instead of a syntax error (config_parser.cxx)"),
 ("C08", "report incomplete configuration file lines", "a block directive without a name and a name without an operator were joined with the next line (config_parser.cxx)"),
 ("C09", "report failure to open or write a configuration file", "write_config_file ignored failure to open or write the file (config_block_io.cxx)"),
 ("C37", "do not share regular expressions between configuration readers", "concurrent readers overwrote each other's regular expression matches (config_parser.cxx, token_expander.cxx)"),
 ("C37", "let regular expressions be used by several threads", "the working variables of RegularExpression were shared by all threads (RegularExpression.cxx)"),
 ("C21", "serialize concurrent requests for loggers", "the logger manager instance and the logger map were accessed without a lock"),
 ("C21", "allow changing a log level while other threads are logging", "the level of a logger was read and written by several threads without synchronization"),
 ("C21", "apply the log level to log_message()", "log_message() emitted every message whatever the level of the logger"),
 ("C22", "correct the time stamp of log messages", "milliseconds were not padded, seconds were taken from a second reading of the clock, localtime()'s buffer was shared by threads"),
 ("C22", "log messages with an empty text", "a message with an empty text was not logged at all"),
 ("C22", "close the brace in the LOG_ASSERT macro", "LOG_ASSERT could not be compiled"),
 ("C12", "first frame of a track set", "first_frame() of a track set took the first frame of the wrong tracks (track_set.cxx)"),
 ("C12", "ignore tracks without states in track set queries", "track set queries dereferenced the missing first/last state of empty tracks (track_set.cxx)"),
 ("C13", "do not read colors that are out of range", "a color component above 255 or below 0 in a file was taken modulo 256 (color.h)"),
 ("C13", "report truncated lines of track files", "truncated or unparsable lines of a track file produced made-up states (track_set_io.cxx)"),
 ("C13", "report failures to write track, landmark and camera files", "failure to open or write a track, landmark or camera file was ignored"),
 ("C13", "write tracks and landmarks with full precision", "numbers were written with 6 digits, so a written track or landmark file did not read back equal"),
 ("C14", "read exactly as many vertices as a PLY file declares", "lines after the declared vertices of a PLY file, such as faces, were read as landmarks"),
 ("C14", "report incomplete and unparsable PLY files", "incomplete and unparsable PLY files were read as made-up landmarks"),
 ("C14", "no map entries for images without a camera file", "images without a camera file got a null camera in the map"),
 ("C14", "read the distortion coefficients of cameras", "reading a camera from a stream lost its distortion coefficients"),
 ("C20", "keep a plugin library open when its registration reports failure", "a module whose registration function reported failure after registering an algorithm was closed, leaving a dangling factory (crash)"),
 ("C20", "match the plugin name filter against the module name", "loading a plugin by name took any module whose name merely contained or extended it, or whose directory did"),
 ("C20", "data races in the plugin manager's first use", "concurrent first uses of the plugin manager raced on the instance and on the loading"),
 ("C24", "define the algorithm and camera map functions with C linkage", "ten declared C functions were defined with C++ linkage, so that no caller could be linked"),
 ("C24", "room for the terminator of C error messages", "the terminator of an error message was written behind the allocated text"),
 ("C24", "room for the terminator of listed C strings", "the terminator of each listed string was written behind the allocated text"),
 ("C24", "C config file errors with long messages or no error handle", "failures of reading or writing a config file overran the message buffer, or crashed without an error handle"),
 ("C25", "return the result of the C configuration check", "vital_algorithm_*_check_impl_configuration returned false whatever the result"),
 ("C23", "reject algorithms of another type when destroying C handles", "destroying an algorithm handle through another type's function corrupted the handle caches"),
 ("C27", "enumerating a sparse matrix with no rows or columns reads out of bounds", "begin() of a matrix whose outer dimension is zero read outside of its arrays (enumerate_matrix.h)"),
 ("C26", "assigned frame homographies shared their transformation", "assignment shared the transformation, while construction copies it (homography_f2f, homography_f2w)"),
 ("C26", "conversion between homographies of different types does not compile", "the converting constructor used a protected member of another type (homography.h)"),
 ("C36", "converting a covariance left part of it uninitialized", "the converting constructor copied only N of N(N+1)/2 values (covariance.h)"),
 ("C38", "features and landmarks built from others lost the covariance", "the converting constructors of feature_ and landmark_ left the covariance uninitialized"),
 ("C38", "copies of dynamic descriptors freed the same data twice", "copying or assigning a descriptor_dynamic shared its array (double free)"),
 ("C38", "malformed timestamps in configurations were silently accepted", "a value that is no timestamp gave an uninitialized frame number instead of a failed conversion (timestamp_config.h)"),
 ("C39", "put the tangential part of the distortion derivative in its place", "undistort(distort(p)) was not p: the second diagonal element of the Jacobian was added to the first (camera_intrinsics.cxx)"),
 ("C40", "base64 decoding read past an input that is not a multiple of four", "decoding by input length read up to three characters behind the input (Base64.c)"),
 ("C40", "the base64 end mark was decoded as an extra byte", "the end mark ==== that the encoder writes was decoded as a zero byte (Base64.c)"),
 ("C29", "the wall timer was never available, its configuration test named an unknown macro", "wall_timer was compiled as a stand-in that never runs, although the clock is available (wall_timer.h.in)"),
 ("C41", "copies of regular expressions lost the result of the last search", "match(), start() and end() of a copied expression returned garbage (RegularExpression.cxx)"),
  ("C34", "hash containers could not be filled from forward iterator ranges, std::distance has no such form", "insert_unique/insert_equal with forward iterators did not compile (hashtable.hxx.in)"),
  ("C34", "erasing from a hash container by the key of one of its elements read the key after freeing it", "erase(key) with a reference to the key of an element of the container read freed memory (hashtable.hxx.in)"),
  ("C32", "paths with three or more slashes in a row kept some of them, so the directory of a file name could end in a slash", "ConvertToUnixSlashes left runs of slashes; GetFilenamePath of 'a///b' ended in a slash (SystemTools.cxx)"),
  ("C32", "paths below a home directory that is the root directory were taken for relative ones", "with HOME=/ '~/x' became '//x' (SystemTools.cxx)"),
  ("C32", "nothing was found to be below the root directory", "IsSubDirectory('/a', '/') was false (SystemTools.cxx)"),
  ("C32", "file names that begin with a tilde were dropped from paths when there is no such home directory", "'~nobody-of-that-name/x' lost its first component in SplitPath (SystemTools.cxx)"),
  ("C33", "CommandLineArguments::GetLineLength was declared but not defined", "using GetLineLength did not link (CommandLineArguments.cxx)"),
  ("C33", "command-line values that follow their option stayed among the remaining arguments", "GetRemainingArguments returned the value of the last space-separated option as not consumed (CommandLineArguments.cxx)"),
  ("C33", "before parsing a command line, its first argument was not among the remaining ones", "GetRemainingArguments before Parse skipped an argument (CommandLineArguments.cxx)"),
  ("C33", "a command line without even a program name was read beyond its end", "Initialize(0, argv) read argv[0] (CommandLineArguments.cxx)"),
  ("C33", "option names of more than 75 characters overran the buffers of the help text", "help generation wrote beyond a 80-byte buffer (CommandLineArguments.cxx)"),
  ("C33", "the help of options that take several values was wider than the lines of the help text", "the column width ignored the form suffix of multi-value options (CommandLineArguments.cxx)"),
  ("C33", "help texts of blanks were read beyond their end, and so were those without room in their lines", "the help of '   ' was read out of bounds, and line lengths smaller than the option column never ended (CommandLineArguments.cxx)"),
  ("C35", "making a directory where a link leads nowhere, or an unreadable file is, was reported to succeed", "MakeDirectory returned true on EEXIST of something that is not a directory (SystemTools.cxx)"),
  ("C35", "copying a directory over a file was reported to succeed and changed the permissions of the file", "CopyFileAlways(directory, file) returned true and chmod'ed the file (SystemTools.cxx)"),
  ("C35", "copying a file into a directory that could not be read replaced the link to the directory", "CopyFileAlways unlinked a link to an unreadable directory (SystemTools.cxx)"),
  ("C35", "copying a file into the directory it is in removed it first", "CopyFileAlways('/a/f', '/a') deleted the source and failed or left it empty (SystemTools.cxx)"),
  ("C35", "copying a directory that could not be listed was reported to succeed", "CopyADirectory of a missing source returned true and made an empty directory (SystemTools.cxx)"),
  ("C35", "removing a link to a directory emptied the directory, although it failed", "RemoveADirectory(link) removed everything in the directory the link leads to (SystemTools.cxx)"),
  ("C35", "the search for a file ended at a directory of that name, and that for a directory at a file", "FindFile/FindDirectory gave up at the first match of the wrong type (SystemTools.cxx)"),
  ("C35", "removing a directory where there is a file changed the permissions of the file", "RemoveADirectory(file) added write permission to the file and failed (SystemTools.cxx)"),
  ("C31", "kwsysProcess restores the previous SIGINT and SIGTERM handlers", "after the last process the handler of SIGINT was that of SIGTERM (ProcessUNIX.c)"),
  ("C31", "kwsysProcess_Kill does not signal the ids of reaped processes", "a second Kill, or one after the timeout expired, signalled ids that may belong to other processes by then (ProcessUNIX.c)"),
  ("C31", "kwsysProcess does not kill every process when fork fails", "the -1 of a failed fork was stored as a process id and passed to kill(): every process of the user was stopped and killed (ProcessUNIX.c)"),
  ("C31", "kwsysProcess_Execute goes on when a signal interrupts it", "EINTR while waiting for the process group of the child made Execute fail (ProcessUNIX.c)"),
  ("C31", "kwsysProcess cleanup does not depend on the detach option set since", "setting the detach option while a process runs left a dangling pointer in the table of the signal handler (ProcessUNIX.c)"),
  ("C31", "kwsysProcess terminates the error message of a child", "the error message of a run was followed by the end of an earlier, longer one (ProcessUNIX.c)"),
  ("C31", "kwsysProcess times never have a full second of microseconds", "a timeout of n.9999999 s gave tv_usec 1000000, which select() rejects: the run ended in an error (ProcessUNIX.c)"),
  ("C31", "merged stderr of a kwsysProcess pipeline goes to the shared stdout", "with merged output and a shared stdout the stderr of every process but the last went to the input of the next (ProcessUNIX.c)"),
  ("C42", "SplitString kept a separator that follows another one or begins the text", "'a,,b' was split into 'a' and ',b' (SystemTools.cxx)"),
  ("C42", "EstimateFormatLength under-estimated widths, precisions and large numbers", "'%100d' was estimated as 69, 1e90 with '%f' as 66 characters; '%lf' and '*' read the wrong arguments (SystemTools.cxx)"),
  ("C42", "dates and time stamps of the wrong length or with parts of two months were accepted", "'anF  1 2000' was a date, and 'Ja' read uninitialised memory (SystemTools.cxx)"),
  ("C42", "SplitProgramFromArgs never ended for a text that begins with a space", "' none' looped for ever (SystemTools.cxx)"),
  ("C42", "GetLineFromStream lost carriage returns at buffer boundaries, text after NUL, and the last character allowed", "1022 characters before a carriage return and more text lost the carriage return; limit 1 gave no character; text after NUL was lost (SystemTools.cxx)"),
]
FINDINGS = [  # property, key text
]
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
log = subprocess.check_output(["git", "-C", "/repo", "log", "--format=%h %s"], text=True)
h = {l.split(" ", 1)[1]: l.split(" ", 1)[0] for l in log.splitlines()}
with open(os.path.join(here, "known_findings.txt"), "w") as f:
    for p, subj, what in FIXED:
        f.write("fixed: property=%s %s %s\n" % (p, h["fix: " + subj], what))
    for p, what in FINDINGS:
        f.write("finding: property=%s %s\n" % (p, what))
missing = set(h) - {"fix: " + s for _, s, _ in FIXED} - {"base"}
if missing:
    print("not recorded:", missing)
