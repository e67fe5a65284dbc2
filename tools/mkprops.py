#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=None)))

ENV='ipkg/environments.py'; BLD='ipkg/build.py'; PKG='ipkg/packages.py'; UT='ipkg/utils.py'
REP='ipkg/repositories.py'; REQ='ipkg/requirements.py'; DEP='ipkg/dependencies.py'
PRE='ipkg/prefix_rewriters.py'; CLI='ipkg/cli.py'; HTTP='ipkg/files/backends/http.py'
BK='ipkg/files/backends/__init__.py'; FS='ipkg/files/backends/filesystem.py'; CA='ipkg/files/cache.py'
PL='ipkg/platforms.py'; MIX='ipkg/mixins.py'; VER='ipkg/versions.py'; FI='ipkg/files/__init__.py'

p('C01','A package is recorded as installed only once it is completely installed',
  'An environment lists a package as installed, in memory or on disk, only after every dependency was handled, the whole archive was extracted into the environment prefix and its relocatable files were handed to the prefix rewriter. If any of these steps fails, the error reaches the caller and the package is not recorded. What is recorded is that package\'s own metadata, under its own name.',
  ['inputs','fault_sequences','crash_points'],'every package, every environment state, a failure or crash at any step of an installation',
  'The tests install one dependency-free package successfully; no test makes a step fail or looks at the record at the moment of failure.',
  [ENV,PKG],[('Environment.install writes the record last',ENV),('PackageFile.extract',PKG)],
  [("meta['packages']",'installed packages by name',ENV)],['.ipkg.meta of the environment','Environment.packages'])
p('C02','Uninstalling removes exactly the recorded files, then the record',
  'Uninstalling a package removes every file or symbolic link (dangling ones included) that its record lists and that exists under the environment prefix, and apart from those removes nothing but parent directories that became empty. The record disappears only after all files were handled, and the change is saved. Asking for a package that is not installed raises the not-installed error and changes nothing.',
  ['inputs','histories','crash_points'],'every recorded file list, every file-system state, a crash between any two steps',
  'One test uninstalls a package of one regular file; symlinks, missing files, shared directories and crashes are never reached.',
  [ENV],[('Environment.uninstall',ENV)],[("meta['packages'][name]['files']",'files owned by the package',ENV)],['environment prefix','.ipkg.meta'])
p('C03','One version of a package at a time: reinstall is a no-op, upgrade replaces',
  'Installing a package whose name, version and revision are already installed changes nothing: no extraction, no removal, no metadata change. Installing a different version or a different revision of an installed package first uninstalls the installed one and then installs the new one, so that an environment never holds two versions of one package and never keeps files of the replaced one.',
  ['inputs','histories'],'every sequence of installations in one environment',
  'No test installs a second version or the same version twice.',
  [ENV],[('already-installed scan in Environment.install',ENV)],[("meta['packages']",'installed packages by name',ENV)],['environment prefix','.ipkg.meta'])
p('C04','Dependencies are installed before the package that needs them',
  'When a package is installed, each of its declared dependencies that is not already installed is installed from the same repository before any file of the package is extracted; none is skipped, whatever the number and order of dependencies. A dependency cycle among packages is reported as an error instead of recursing without end.',
  ['inputs','histories'],'every dependency graph and environment state',
  'The only test of an installation with dependencies is commented out.',
  [ENV],[('dependency loop in Environment.install',ENV)],[],['environment prefix','order of extraction'])
p('C05','Every change of persistent metadata is saved before the operation returns',
  'Each operation that changes an environment\'s or a repository\'s metadata (install, uninstall, set a configuration key, rebuild the repository index, build a formula into a repository) has written the changed metadata to its file when it returns successfully. Nothing is changed after the last save.',
  ['inputs','histories'],'every operation and every path through it that returns normally',
  'Tests mostly look at the in-memory object; a forgotten or too early save only shows in a later process.',
  [ENV,REP,UT],[('meta.save() calls',ENV),('meta.save() calls',REP),('DictFile.save',UT)],[('DictFile','dict backed by a JSON file',UT)],['.ipkg.meta','repository.json'])
p('C06','An interrupted metadata save leaves a complete metadata file',
  'Saving a metadata file writes the whole dictionary as JSON such that a crash or an error at any point leaves the file holding either the complete previous content or the complete new content, never a truncated or empty file. Loading a missing or empty file gives an empty dictionary, loading invalid JSON raises the invalid-content error and never silently yields an empty dictionary, and clearing always empties the dictionary and removes the file.',
  ['crash_points','fault_sequences','inputs'],'a crash or an exception at every step of a save; every content of the file',
  'Tests save and reload without interruption.',
  [UT],[('DictFile.save / reload / clear',UT)],[('DictFile','dict backed by a JSON file',UT)],['metadata file on disk'])
p('C07','Archives and packages never touch files outside their target directory',
  'Extracting a package or a source archive, whatever member names it contains (absolute names, names climbing with ".."), creates no file outside the directory it is extracted to: such archives are rejected with an ipkg error before anything is extracted. The file list declared in a package\'s metadata is checked the same way before the package is installed, so that later rewriting or removing those files stays inside the prefix.',
  ['inputs'],'every archive and every metadata file list',
  'Tests only use well-formed archives.',
  [PKG,UT,ENV],[('PackageFile.extract',PKG),('unarchive',UT),('Environment.install',ENV)],[],['file system outside the prefix'])
p('C08','Exactly the relocatable files of a relocated package are prefix-rewritten',
  'If the prefix a package was built with differs from the environment prefix, every regular file of the package that lies directly in bin or sbin, or in or below a directory whose name starts with lib, is passed to prefix rewriting with the build prefix and the environment prefix, after extraction; symbolic links and files elsewhere are not touched. pkg-config and libtool files, scripts and Mach-O binaries each go to the rewriter made for them. If the prefixes are equal nothing is rewritten.',
  ['inputs','configurations'],'every package file list and every pair of prefixes',
  'The packages of the test data contain a single README at the root, so nothing is ever rewritten in a test.',
  [ENV,PRE,'ipkg/regex.py'],[('rewrite loop of Environment.install',ENV),('rewrite_prefix dispatch',PRE)],[],['content of installed files'])
p('C09','Prefix rewriting changes the prefix only and loses no content',
  'Rewriting a text file writes back every line it had, in order; only occurrences of the build prefix in the line being rewritten (the shebang line of a script, the first "prefix=" line of a pkg-config file, the first "libdir=" line of a libtool file) are replaced, by the environment prefix. A file with no such line is left with its content intact and causes no failure.',
  ['inputs'],'every content of a rewritten file, including empty files and files without a matching line',
  'No test calls a rewriter.',
  [PRE],[('rewrite_text_first_line, rewrite_text_first_match',PRE)],[],['content of installed files'])
p('C10','Sources and patches are used only after their checksum was verified',
  'A formula resource declared with a checksum is handed out only after the digest of its content, computed with the algorithm the checksum was declared under, was compared with the declared value; a mismatch raises the invalid-checksum error. If several checksums are given the strongest is used. The build reads sources and patches only through this path, and verification leaves the file positioned where it was.',
  ['inputs'],'every resource, every supported algorithm, every content',
  'Tests verify one md5 success and one failure of a local file directly; the formula path and the other algorithms are not exercised.',
  [BLD,BK],[('File.__init__ / File.open',BLD),('BaseFile.verify_checksum',BK),('Formula.build, Formula.unarchive',BLD)],[],['exception raised','content given to the build'])
p('C11','Repository packages are verified against the recorded checksum',
  'Adding a package to a repository records the SHA-256 of the bytes of that package file. A package obtained from a repository whose metadata records a checksum is opened for reading its metadata or its files only after its content was verified against that checksum; a mismatch raises the invalid-checksum error.',
  ['inputs'],'every package file and every repository metadata',
  'Tests never alter a package file behind the metadata.',
  [PKG,REP],[('LocalPackageRepository.add',REP),('PackageFile opening the archive',PKG)],[],['repository.json','exception raised'])
p('C12','A failed HTTP download never yields content',
  'Reading a remote file gives the body of a successful HTTP response. A network error or an HTTP error status raises the tool\'s own HTTP error, and then nothing is returned as content and nothing is stored in the download cache. The file is downloaded at most once per file object, the complete body is kept, and reading starts at its beginning.',
  ['inputs','fault_sequences'],'every response status, every network failure, every body length',
  'No test uses HTTP.',
  [HTTP],[('HttpFile download',HTTP)],[],['content read','cache directory'])
p('C13','The download cache returns only what was stored for exactly that URL',
  'A cache entry is found only under the exact name it was stored under: storing, testing and reading compute the same location, a digest of the whole name inside the cache directory. An entry is read only if it was found. An entry appears in the cache only complete, even if writing is interrupted. Without a usable cache directory nothing is read or stored, and a cache write failure never fails the download.',
  ['inputs','fault_sequences','crash_points','configurations'],'every URL, every cache configuration, a failure at every step of a store',
  'No test uses the cache.',
  [CA,HTTP],[('get_cache_filepath, has, get, set',CA),('HttpFile use of the cache',HTTP)],[],['cache directory'])
p('C14','A built package holds exactly the files its formula installed',
  'The package produced by a build contains, and its metadata lists, exactly the files (regular files and symbolic links, those to directories included) present under the build prefix after the formula\'s install step and absent before it, named relative to the prefix however the prefix is spelled. The snapshot before is taken after dependencies were installed, so that no file of a dependency gets into the package.',
  ['inputs','configurations'],'every formula, prefix and set of installed files',
  'One test builds a one-file formula in a fresh temporary prefix.',
  [BLD],[('Formula.build, find_files, package creation',BLD)],[],['content of the .ipkg file'])
p('C15','A build leaves the build environment as it found it',
  'After a successful build the files the formula installed are removed from the build environment, packages installed into it to satisfy build dependencies are uninstalled, and packages that were already installed before the build stay installed. The temporary build directory is removed unless the caller asked to keep it. Files are removed only after the package was written.',
  ['inputs','histories'],'every formula, every dependency set and every pre-existing environment',
  'The only build test has no dependencies and no environment.',
  [BLD],[('cleanup part of Formula.build',BLD)],[],['build environment prefix','.ipkg.meta'])
p('C16','A failing build step yields no package',
  'If fetching or unpacking the sources, a patch, a dependency installation or any command run by the formula fails, the build raises an error: no package file is created and nothing is added to a repository. Patches are all applied, in order, before the install step, and commands of the default install step run configure, make and make install in this order. The build variables of the formula are set, and each of its dependencies that no installed package satisfies is installed, before any of its commands runs.',
  ['inputs','fault_sequences'],'a failure at any step of a build',
  'No test has a failing build step.',
  [BLD,REP,UT],[('Formula.build order, run_command',BLD),('build_formula',REP)],[],['package directory','exception raised'])
p('C17','Source archives are unpacked only if they have a single root item',
  'Unpacking a source archive fails with an ipkg error, without extracting anything, unless all members share exactly one root item; on success the returned directory is that root inside the target. tar.gz, tar.bz2, tar.xz and zip archives are recognised by file name and any other name is refused with an ipkg error.',
  ['inputs'],'every archive and file name',
  'Tests unpack one well-formed archive per format.',
  [UT],[('unarchive',UT)],[],['target directory','exception raised'])
p('C18','Package metadata written by a build has every key its readers use',
  'Every metadata key that installing, uninstalling, indexing, comparing, naming or printing a package reads from package metadata is written by the build that produces packages. Every key read is either always written or read in a way that tolerates its absence. The values written are those of the formula: its name, version, revision, dependencies, platform and variables.',
  ['programs','inputs'],'every reader of package metadata in the code',
  'Tests read a few keys of packages; a reader of a missing key fails only when it is reached.',
  [BLD,PKG,ENV,REP,REQ,VER],[('metadata dictionary of package creation',BLD),('attribute access on packages',PKG)],[],['UnknownMeta / KeyError'])
p('C19','Every version constraint of a requirement is enforced or refused',
  'A requirement with any combination of the operators ==, !=, <, <=, >, >= accepts a version only if every one of the constraints accepts it: simplifying the constraints never drops or weakens one. A combination of bounds or equalities that no version can satisfy is refused with the exclusive-requirements error, and lower/upper bounds that some version can satisfy are not refused.',
  ['inputs'],'every multiset of operators and versions',
  'Tests check about thirty pairs; != and combinations of three or more operators are not covered.',
  [REQ],[('remove_useless_version_selectors, OPERATORS, Requirement.satisfied_by_version',REQ)],[],['Requirement.satisfied_by'])
p('C20','A requirement is satisfied only by the right name, platform and version',
  'An object satisfies a requirement exactly if its name equals the required name, its platform (when it declares one) matches the required platform and its version satisfies every version constraint. This holds alike for formulas, package files, installed packages and metadata dictionaries; an object that declares no platform is accepted on any.',
  ['inputs'],'every requirement and object, in each representation',
  'Tests use platform "any" and a single name only.',
  [REQ],[('Requirement.satisfied_by',REQ)],[],['Requirement.satisfied_by'])
p('C21','Merging requirements keeps every constraint of both',
  'The sum of two requirements on one package is met only on the platforms both are met on (each component of its platform is the one either operand names), and carries the extras of both and the version constraints of both, for every version spelling a requirement can be written with. Requirements with different names or non-matching platforms are not merged but refused, and neither operand is modified.',
  ['inputs'],'every pair of requirements',
  'Tests merge one pair of plain numeric versions.',
  [REQ],[('Requirement.__add__',REQ)],[],['result of +'])
p('C22','Equal requirements hash alike and are never unequal',
  'Two requirements that compare equal have the same hash and are not reported as different by !=. Comparing a requirement with any string or other object, well-formed or not, answers without raising.',
  ['inputs'],'every pair of requirements and every other object',
  'Tests compare four pairs.',
  [REQ],[('Requirement.__eq__ / __hash__ / __ne__',REQ)],[],['==, !=, hash, dict keyed by requirements'])
p('C23','Malformed input is reported with an ipkg error, not an internal one',
  'A malformed requirement, version constraint, package spec, platform string, metadata file (one that is not JSON, or whose content is not an object), package file, formula file, archive of sources, archive name or URL scheme is reported by raising one of ipkg\'s own exception types, and not by an internal error such as ValueError, KeyError or AttributeError. No error path, or any other path, refers to a name, attribute or argument that does not exist.',
  ['inputs','programs'],'every input that is refused, every statement of the code',
  'Error paths are mostly untested: a wrong name on one only fails when it is reached.',
  ['ipkg/exceptions.py',REQ,UT,PL,FI,BLD,BK],[('raise statements',REQ),('raise statements',UT),('raise statements',PL)],[],['exception type raised'])
p('C24','Platform matching is a symmetric component-wise wildcard match',
  'Two platforms match exactly if their operating systems, releases and architectures are pairwise equal or either of the pair is "any"; matching is symmetric, != is its negation, and comparing with a string is comparing with the platform it names. Comparing with a malformed string or with anything that is not a platform answers "different" and does not raise.',
  ['inputs'],'every pair of platforms, strings and other objects',
  'Tests compare a handful of strings.',
  [PL],[('Platform.__eq__ / __ne__ / parse',PL)],[],['== and != of platforms'])
p('C25','Package ordering operators are mutually consistent',
  'For any two packages or formulas (or one and a package spec string) < and > never hold both, neither holds together with ==, <= is "< or ==", >= is "> or ==", and != is the negation of ==. Objects of different names, and things that are not packages, are neither less, greater nor equal. With the same name the version decides, and only for equal versions the revision; a spec without version or revision leaves the missing part out of equality.',
  ['inputs'],'every pair of objects and specs',
  'Tests compare one pair per operator.',
  [MIX],[('NameVersionRevisionComparable',MIX)],[],['comparison operators'])
p('C26','Lookups return satisfying packages only, the most recent one first',
  'Searching a repository returns exactly its items that satisfy the requirement, ordered from the most recent version and revision to the oldest; picking a single one gives the first, or the requirement-not-found error when there is none. Choosing the most recent among several versions or candidates gives the greatest one under the version order in use, including a caller-supplied one.',
  ['inputs'],'every repository content and requirement, every set of candidates',
  'The test repository holds one version per package, and the version tests sort four strings.',
  [REP,VER,DEP],[('BaseRepository.find / __getitem__',REP),('versions.sorted / most_recent / compare / extract',VER),('select_most_recent_version',DEP)],[],['order of find()'])
p('C27','The solver keeps only candidates that satisfy the merged requirement',
  'While a dependency graph is being collected, the candidates kept for a package name are always packages that satisfy the combination of every requirement placed on that name so far: candidates are added only when they satisfy it and are dropped when a later requirement rules them out. Every requirement of every added package is merged into the combination for its name.',
  ['inputs','histories'],'every sequence of additions and merges',
  'Tests build five small fixed graphs.',
  [DEP],[('SolverRequirement.merge / satisfy, Solver.add, Solver.from_obj',DEP)],[('SolverRequirement.satisfiers','candidates for one name',DEP)],['Solver.unsatisfied','solve()'])
p('C28','The solver never returns an incomplete or looping solution',
  'Solving raises an error, and returns nothing, when a requirement of any package in the solution has no candidate, when no starting point exists, or when packages remain that depend on each other in a loop. A returned solution lists every package processed, the one processed last first, so that a package comes after the dependency first reached from it; only installed packages are left out, and only when asked.',
  ['inputs'],'every dependency graph',
  'Tests solve three fixed graphs.',
  [DEP],[('Solver.solve, Solver.find_best_dependencies',DEP)],[],['result of solve()'])
p('C29','A solution lists every dependency before its dependents, without duplicates',
  'For every acyclic dependency graph solving returns each needed package exactly once and each after all the packages it depends on; and it raises the loop error only for graphs with a loop.',
  ['inputs'],'every dependency graph and every selection of versions',
  'Tests solve three fixed graphs, and their outcome depends on set order.',
  [DEP],[('Solver.solve',DEP)],[],['result of solve()'])
p('C30','Rebuilding the index makes it describe exactly the package files present',
  'Rebuilding a package repository\'s index discards every old entry and then adds one entry for every regular file in the package directories directly under the repository, whatever else lies there, and saves the result. Files at the root and things that are not regular files in package directories are skipped without ending the scan.',
  ['inputs','histories'],'every content of a repository directory and every previous index',
  'One test indexes a directory with a single package.',
  [REP,UT],[('LocalPackageRepository.update_metadata',REP),('DictFile.clear',UT)],[],['repository.json'])
p('C31','A repository index has one current entry per package file',
  'Adding a package to a repository index records that package\'s own metadata under its name, keeps the entries of other packages and other versions, and replaces an entry for the same name, version, revision and platform instead of keeping a stale one beside it. The location computed for an entry is the repository base, the package name and the same file name a build gives to that package. Anything that is not a package is refused and changes nothing.',
  ['inputs','histories'],'every sequence of additions and rebuilds',
  'Tests add one package once.',
  [REP,PKG,BLD],[('LocalPackageRepository.add',REP),('make_filename used by writer and reader',PKG)],[],['repository.json','find()'])
p('C32','Building a repository attempts every missing formula and always ends',
  'Building all formulas attempts each formula that has no package in the repository yet, and no other; a formula waits while one of its dependencies is itself still to be built; a formula that fails to build is reported and does not stop the others or get listed as built. The run ends for every formula set, dependency cycles included.',
  ['inputs','fault_sequences'],'every set of formulas and failures',
  'The test of building a repository is commented out.',
  [REP],[('LocalPackageRepository.build_formulas',REP)],[],['returned list','repository.json'])
p('C33','Every command line option reaches the command that declares it',
  'For each sub-command the set of values the command line parser produces is exactly the set of parameters the command accepts, and commands that take an environment use the given one or else the current one, except for building, which may run without. Each command hands the values to the library operation it names.',
  ['programs','inputs'],'every sub-command and combination of options',
  'No test touches the command line.',
  [CLI],[('command registration and dispatch',CLI)],[],['argparse set-up','calls of command functions'])
p('C34','A command that fails exits with a failure status and a message',
  'Whenever an operation run from the command line fails with one of ipkg\'s errors, including while options are being converted, the process reports the error and ends with a non-zero status; only a command that completed ends with status zero. Errors are not swallowed between the library and the command line, except for the failures of single formulas while building a repository and of storing a download in the cache, which are logged; a comparison or a question about malformed input may answer no.',
  ['inputs','fault_sequences'],'every failure in every command',
  'No test touches the command line.',
  [CLI,REP,CA,UT],[('Ipkg.__call__ error handling',CLI),('except clauses of the package',REP)],[],['exit status'])
p('C35','Commands run in an environment get that environment\'s variables',
  'A command executed in an environment runs with that environment\'s variables: its bin and sbin directories lead PATH, its library, include, man and pkg-config directories lead their search variables, and IPKG_ENVIRONMENT and TMPDIR name its prefix and temporary directory; variables set by installed packages are added, and other variables keep their value. Inserting into a path list moves an existing entry instead of duplicating it, keeps the order of the others, and an empty list has no entries.',
  ['inputs','configurations'],'every parent environment, prefix and set of packages',
  'Tests look at two variables and four list operations.',
  [ENV],[('EnvironmentVariables, ListVariable, Environment.execute',ENV)],[],['environment of child processes','printenv'])
p('C36','Exported environment variables are safe to evaluate in a shell',
  'The text printed for exporting an environment assigns, when evaluated by a POSIX shell, to every variable exactly its value, whatever characters the value contains: each value is quoted. Every variable is printed on its own line.',
  ['inputs'],'every value of every variable',
  'Nothing tests the printed text.',
  [ENV,CLI],[('EnvironmentVariables.as_string',ENV)],[],['output of printenv --export'])
p('C37','No variable value of an installed package makes an environment unusable',
  'Adding a variable to an environment expands directory references in its value and, when the value is not a valid format string, keeps it unchanged instead of failing, for any text. Hence an environment whose installed packages define any text values can always be opened again.',
  ['inputs'],'every string value of an environment variable',
  'One test adds one well-formed value.',
  [ENV],[('EnvironmentVariables.add',ENV)],[],['opening an environment'])
p('C38','Every URL scheme is served by its backend, every other is refused',
  'Opening a URL hands the complete URL and options to the backend registered for its scheme, a plain path being a local file; an unregistered scheme raises the unknown-scheme error and never falls back to another backend. Every registered backend exists, and provides reading, seeking and telling the position on the same underlying file.',
  ['inputs','configurations'],'every URL and every registered backend',
  'Tests open local files only.',
  [FI,BK,FS,HTTP,'setup.py'],[('vopen',FI),('entry points',"setup.py"),('LocalFile / HttpFile interface',FS)],[],['backend class used'])
p('C39','A command that fails to start or exits non-zero is always reported',
  'Running an external command raises the execution-failed error if the command cannot be started, does not take the input data it is given or exits with any non-zero status, and otherwise returns its captured output; it is passed the arguments, working directory, streams, input data and environment it was given. All external commands of the tool are run through this one operation and none ignores its failure.',
  ['inputs','fault_sequences','programs'],'every command, exit status and caller',
  'Tests run a handful of commands; callers that ignore a failure are not visible to them.',
  [UT,ENV,BLD,PRE],[('execute',UT),('callers of execute',PRE)],[],['exception raised'])
p('C40','Rewriting a binary restores its permissions, also when it fails',
  'Rewriting a read-only Mach-O binary makes it writable only for the rewriting: its original mode is restored whether rewriting succeeds or any of its steps fails, and the mode of a writable file is not changed.',
  ['fault_sequences','inputs'],'a failure of any tool run during the rewriting, every file mode',
  'No test calls the rewriter, and the tools it runs exist on OS X only.',
  [PRE],[('rewrite_osx_bin',PRE)],[],['mode of the file'])
p('C41','A formula command runs with exactly the arguments it was given',
  'Each call of run_<command>(arguments) of a formula runs that command once, with exactly the arguments of this call (a text being split into words), whatever was run before and however often the same function is used; the arguments passed by the caller are not modified, and input data and working directory reach the command. run_configure runs ./configure with each configure argument, directory names filled in from the build environment. What commands print is shown if the formula is verbose and dropped otherwise.',
  ['histories','inputs'],'every sequence of commands a formula runs, every argument list',
  'Tests call each command at most once per formula; state kept between two calls shows only in longer histories.',
  [BLD],[('Formula.__getattr__ / run_command / run_configure',BLD)],[],['commands executed'])
p('C42','Reading or refusing a text never takes exponential time',
  'No text, however malformed, makes the patterns that requirements, versions, package specs, package files and formula files are matched with backtrack exponentially: no pattern can read the same characters over and over in more than one way before it can fail.',
  ['inputs'],'every text',
  'Running time on adversarial texts is not something a unit test samples: the tests match short well-formed texts.',
  [REQ,'ipkg/regex.py',UT],[('RE_REQUIREMENT',REQ),('patterns','ipkg/regex.py')],[],['time until a text is accepted or refused'])
p('C43','An environment means the same directory from everywhere',
  'Whatever path an environment is named by, also a relative one, its prefix and its directories are the absolute paths of that same directory; so are the variables its commands get and the build prefix recorded in the packages built in it, whatever working directory a command runs in.',
  ['inputs','configurations'],'every path an environment is named by, every working directory',
  'Tests name environments by absolute temporary directories; a relative path shows only once something runs in another working directory.',
  [ENV,BLD,PKG],[('Environment.__init__',ENV)],[],['Environment.prefix','variables of commands run while building','build prefix of packages'])
p('C44','A formula file gives the one formula class it defines',
  'Loading a formula file gives the single formula class found in it, Formula itself and classes whose name starts with an underscore apart, whatever was loaded before in the same process and whatever the file is called; a missing file, or one with none or several, is refused with an ipkg error, and no module that is in use is replaced. A formula repository loads every formula file of its directories once, and nothing else.',
  ['inputs','histories'],'every formula file and every sequence of files loaded in one process',
  'Tests load well-formed files with their own names, one per process state.',
  [BLD,REP],[('Formula.from_file',BLD),('FormulaRepository',REP)],[],['class returned','exception raised','sys.modules'])
p('C45','Operations leave the process and shared objects as they were',
  'No operation of ipkg changes, not even temporarily, the working directory, the environment variables or other settings of the process, nor any object which all uses of the package share: module variables and class attributes are not assigned, and they and default argument values keep their content. What one operation does cannot show in a later or concurrent one in the same process except through files and the objects given to it.',
  ['histories','schedules','programs'],'every function, every order of operations in one process',
  'A test runs each operation on fresh objects; state leaking through shared objects shows only in sequences nobody wrote down.',
  [ENV,BLD,PKG,REP,UT,CLI,REQ,DEP,PL,VER],[('every function','ipkg/')],[],['os.getcwd()','os.environ','module and class attributes'])
p('C46','Queries change nothing',
  'Listing installed packages, printing variables, reading configuration, searching a repository, comparing and ordering packages and versions, evaluating requirements and solving dependencies write, create, rename or remove no file (the download cache apart), run no command, and leave the metadata they read as it was.',
  ['inputs','histories','programs'],'every query and everything it may call',
  'Tests check the answers of queries, not that everything else is as before.',
  [ENV,REP,PKG,REQ,DEP,MIX,CLI,VER],[('query operations','ipkg/')],[],['file system','metadata'])
p('C47','A relocated Mach-O binary refers to its libraries in the new prefix',
  'Rewriting the prefix of a Mach-O binary runs install_name_tool once on that file so that its own name becomes its path, every reference to a library below the build prefix becomes the reference to the same library below the environment prefix, and no other reference changes, such as to system libraries or to libraries in a directory whose name only begins with the build prefix.',
  ['inputs','configurations'],'every list of referenced libraries, every pair of prefixes',
  'The tools exist on OS X only, and no test calls the rewriter.',
  [PRE],[('rewrite_osx_bin, get_osx_bin_libs',PRE)],[],['install_name_tool command line'])
p('C48','Creating an environment makes each of its directories or fails',
  'Creating the directories of an environment makes its prefix and every directory it names, all inside the prefix, each after the one it is in. A directory that cannot be made ends in an ipkg error and is never passed over; one that exists already is accepted only where the caller allows it, which by default it does not. Temporary directories are made inside the temporary directory of the environment, and cleaning that removes nothing else and leaves it in place.',
  ['inputs','fault_sequences','configurations'],'every state of the file system at the prefix, a failure at any directory',
  'Tests create environments at fresh places only, where nothing fails.',
  [ENV,UT],[('EnvironmentDirectories, cleanup_tmpdir, mktmpdir',ENV),('mkdir',UT)],[],['file system'])
p('C49','The current platform can be written, read back and used in file names',
  'Whatever the operating system says about itself, none of the three parts of the current platform holds a dash or upper case letters, so that the text of the platform names the same platform when it is read back; a part which needs no such change is what the system says. A system that is not supported is refused with the invalid-platform error. The file name of a package holds no slash, whatever its platform, and is otherwise made of its name, version, revision and platform as they are.',
  ['configurations'],'every name, release and architecture a system may report',
  'Tests see the one system they run on.',
  [PL,PKG],[('Platform.current',PL),('make_filename',PKG)],[],['package file name','platform in the metadata'])
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
print(len(P))
