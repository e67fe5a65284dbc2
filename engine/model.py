"""What the analysis assumes of Python 2 and of the libraries ipkg uses."""

# Exception classes (Python 2 hierarchy): name -> base
EXC = {
    'BaseException': None, 'Exception': 'BaseException', 'SystemExit': 'BaseException',
    'KeyboardInterrupt': 'BaseException', 'GeneratorExit': 'BaseException',
    'StandardError': 'Exception', 'StopIteration': 'Exception', 'Warning': 'Exception',
    'ArithmeticError': 'StandardError', 'ZeroDivisionError': 'ArithmeticError',
    'AssertionError': 'StandardError', 'AttributeError': 'StandardError',
    'EnvironmentError': 'StandardError', 'IOError': 'EnvironmentError',
    'OSError': 'EnvironmentError', 'EOFError': 'StandardError', 'ImportError': 'StandardError',
    'LookupError': 'StandardError', 'IndexError': 'LookupError', 'KeyError': 'LookupError',
    'NameError': 'StandardError', 'UnboundLocalError': 'NameError',
    'RuntimeError': 'StandardError', 'NotImplementedError': 'RuntimeError',
    'SyntaxError': 'StandardError', 'TypeError': 'StandardError', 'ValueError': 'StandardError',
    'UnicodeError': 'ValueError', 'UnicodeDecodeError': 'UnicodeError',
    'UnicodeEncodeError': 'UnicodeError', 'MemoryError': 'StandardError',
    'requests.RequestException': 'IOError', 'requests.exceptions.RequestException': 'IOError',
    'requests.HTTPError': 'requests.RequestException',
    'requests.exceptions.HTTPError': 'requests.RequestException',
    'requests.ConnectionError': 'requests.RequestException',
    'requests.exceptions.ConnectionError': 'requests.RequestException',
    'requests.Timeout': 'requests.RequestException',
    'requests.exceptions.Timeout': 'requests.RequestException',
    'requests.packages.urllib3.exceptions.HTTPError': 'Exception',
    'tarfile.TarError': 'Exception', 'tarfile.ReadError': 'tarfile.TarError',
    'tarfile.CompressionError': 'tarfile.TarError', 'tarfile.ExtractError': 'tarfile.TarError',
    'tarfile.StreamError': 'tarfile.TarError', 'tarfile.HeaderError': 'tarfile.TarError',
    'zipfile.BadZipfile': 'Exception', 'shutil.Error': 'EnvironmentError',
    'subprocess.CalledProcessError': 'Exception', 'socket.error': 'IOError',
    'argparse.ArgumentError': 'Exception', 'argparse.ArgumentTypeError': 'Exception',
    'os.error': 'OSError', 'select.error': 'Exception',
    'requests.exceptions.SSLError': 'requests.ConnectionError',
    'requests.exceptions.ChunkedEncodingError': 'requests.RequestException',
}
CANON_EXC = {'urllib3.exceptions.HTTPError': 'requests.packages.urllib3.exceptions.HTTPError',
             'os.error': 'OSError',
             'requests.exceptions.RequestException': 'requests.RequestException',
             'requests.exceptions.HTTPError': 'requests.HTTPError',
             'requests.exceptions.ConnectionError': 'requests.ConnectionError',
             'requests.exceptions.Timeout': 'requests.Timeout'}


def exc_bases(name):
    out = []
    name = CANON_EXC.get(name, name)
    while name:
        out.append(name)
        name = EXC.get(name)
    return out


BUILTINS = set('''abs all any apply basestring bin bool buffer bytearray bytes callable chr
classmethod cmp coerce compile complex delattr dict dir divmod enumerate eval execfile file
filter float format frozenset getattr globals hasattr hash help hex id input int intern
isinstance issubclass iter len list locals long map max memoryview min next object oct open ord
pow print property range raw_input reduce reload repr reversed round set setattr slice sorted
staticmethod str sum super tuple type unichr unicode vars xrange zip __import__ __builtins__
Ellipsis NotImplemented __debug__ exit quit'''.split()) | set(
    k for k in EXC if '.' not in k) | set('''BufferError DeprecationWarning FloatingPointError
FutureWarning ImportWarning IndentationError OverflowError PendingDeprecationWarning
ReferenceError RuntimeWarning SyntaxWarning SystemError TabError UnicodeTranslateError
UnicodeWarning UserWarning BytesWarning WindowsError'''.split())

# Names the same operation is known under
ALIAS = {
    'posixpath': 'os.path', 'os.path.lexists': 'os.path.lexists',
    '__builtin__.sorted': 'sorted', '__builtin__.open': 'open', 'file': 'open', 'io.open': 'open',
    'os.remove': 'os.unlink', 'os.replace': 'os.rename', 'shutil.move': 'os.rename',
    'operator.__eq__': 'operator.eq', 'operator.__ne__': 'operator.ne',
    'operator.__lt__': 'operator.lt', 'operator.__gt__': 'operator.gt',
    'operator.__le__': 'operator.le', 'operator.__ge__': 'operator.ge',
    'hashlib.new': 'hashlib.new', 'pipes.quote': 'pipes.quote', 'commands.mkarg': 'pipes.quote',
    'cStringIO.StringIO': 'StringIO', 'io.StringIO': 'StringIO', 'io.BytesIO': 'StringIO',
    'StringIO.StringIO': 'StringIO', 'xrange': 'range', 'itertools.imap': 'map',
    'itertools.ifilter': 'filter', 'itertools.izip': 'zip', 'unicode': 'str',
    'tarfile.TarFile.open': 'tarfile.open', 'os.getcwdu': 'os.getcwd',
    'urllib.parse.urlparse': 'urlparse.urlparse', 'urlparse.urlsplit': 'urlparse.urlparse',
    'pkg_resources.parse_version': 'pkg_resources.parse_version', 'types.StringTypes': 'basestring',
    'shlex.quote': 'pipes.quote',
}

# Pure operations: no effect, no exception worth a path
PURE = set('''len str repr int bool float abs min max sum id hash type callable range zip enumerate
reversed round ord chr dir cmp divmod iter format
os.path.join os.path.split os.path.dirname os.path.basename os.path.abspath os.path.normpath
os.path.isabs os.path.relpath os.path.splitext os.path.commonprefix os.path.realpath
os.path.expanduser os.path.normcase os.fspath
pkg_resources.parse_version operator.eq operator.ne operator.lt operator.gt operator.le
operator.ge operator.add operator.itemgetter operator.attrgetter operator.methodcaller
operator.not_ operator.contains functools.partial functools.wraps functools.cmp_to_key
hashlib.sha1 hashlib.sha224 hashlib.sha256 hashlib.sha384 hashlib.sha512 hashlib.md5
re.compile re.match re.search re.split re.sub re.escape re.findall re.fullmatch
platform.system platform.dist platform.machine platform.mac_ver platform.release
platform.linux_distribution platform.uname platform.node
os.getpid os.getcwd os.getuid time.time time.strftime socket.gethostname
pipes.quote shlex.split json.dumps urlparse.urlparse StringIO urllib.quote
itertools.chain itertools.chain.from_iterable itertools.takewhile itertools.dropwhile
itertools.islice itertools.groupby itertools.product
collections.namedtuple copy.copy copy.deepcopy logging.getLogger logging.Formatter
logging.StreamHandler textwrap.dedent string.Template
stat.S_IMODE stat.S_ISREG stat.S_ISDIR stat.S_ISLNK
tarfile.TarInfo argparse.ArgumentParser object os.environ.get os.getenv slice
errno.errorcode os.strerror fnmatch.fnmatch os.access types.FunctionType'''.split())

# Reads of the file system: no effect; the answer may differ after a change
FSREAD = {
    'os.path.exists': (), 'os.path.lexists': (), 'os.path.isfile': (), 'os.path.isdir': (),
    'os.path.islink': (), 'os.path.ismount': (), 'os.path.getsize': ('OSError',),
    'os.listdir': ('OSError',), 'os.walk': (), 'os.stat': ('OSError',), 'os.lstat': ('OSError',),
    'os.readlink': ('OSError',), 'glob.glob': (), 'os.path.samefile': ('OSError',),
    'os.path.getmtime': ('OSError',),
}

# Effects: name -> (exceptions, changes the file system)
ACT = {
    'open': (('IOError',), True), 'os.unlink': (('OSError',), True),
    'os.rmdir': (('OSError',), True), 'os.mkdir': (('OSError',), True),
    'os.makedirs': (('OSError',), True), 'os.rename': (('OSError',), True),
    'os.chmod': (('OSError',), True), 'os.symlink': (('OSError',), True),
    'os.link': (('OSError',), True), 'os.utime': (('OSError',), True),
    'os.removedirs': (('OSError',), True), 'os.fdopen': (('OSError',), True),
    'os.open': (('OSError',), True), 'os.write': (('OSError',), True),
    'os.close': (('OSError',), False), 'os.fsync': (('OSError',), False),
    'os.chdir': (('OSError',), False),
    'os.system': ((), True), 'os.popen': (('OSError',), True),
    'shutil.rmtree': (('OSError',), True), 'shutil.copy': (('IOError', 'OSError'), True),
    'shutil.copyfile': (('IOError', 'OSError'), True),
    'shutil.copyfileobj': (('IOError',), True),
    'shutil.copymode': (('OSError',), True), 'shutil.copytree': (('OSError',), True),
    'tempfile.mkdtemp': (('OSError',), True), 'tempfile.mkstemp': (('OSError',), True),
    'tempfile.NamedTemporaryFile': (('OSError', 'IOError'), True),
    'tempfile.TemporaryFile': (('OSError', 'IOError'), True),
    'json.load': (('ValueError',), False), 'json.loads': (('ValueError',), False),
    'json.dump': (('IOError', 'TypeError', 'ValueError'), True),
    'tarfile.open': (('tarfile.ReadError', 'IOError'), True),
    'zipfile.ZipFile': (('zipfile.BadZipfile', 'IOError'), True),
    'subprocess.Popen': (('OSError', 'ValueError'), True),
    'subprocess.call': (('OSError', 'ValueError'), True),
    'subprocess.check_call': (('OSError', 'subprocess.CalledProcessError'), True),
    'subprocess.check_output': (('OSError', 'subprocess.CalledProcessError'), True),
    'requests.get': (('requests.RequestException',), False),
    'requests.request': (('requests.RequestException',), False),
    'requests.Session': ((), False),
    'imp.load_source': (('?',), False),
    '__import__': (('?',), False),
    'pkg_resources.require': (('?',), False),
    'pkg_resources.iter_entry_points': ((), False),
    'os._exit': ((), False),
    'time.sleep': ((), False),
}

# Operations that end the process
EXITS = {'sys.exit': 'SystemExit', 'exit': 'SystemExit', 'quit': 'SystemExit'}

# Methods of strings and other immutable values
PURE_METHODS = set('''split rsplit strip lstrip rstrip lower upper startswith endswith join
replace splitlines format encode decode title capitalize partition rpartition find rfind index
count isdigit isalpha isalnum zfill ljust rjust center expandtabs translate
group groups groupdict match search fullmatch findall finditer sub start end span
islnk issym isfile isdir isreg isdev get_info hexdigest digest getvalue copy
__contains__ issubset issuperset union intersection difference symmetric_difference
keys values items iterkeys itervalues iteritems has_key get viewkeys viewitems viewvalues
getmembers getnames namelist infolist fileno isatty geturl toordinal __str__ __repr__
__len__ __iter__ total_seconds'''.split())

# Methods changing the object they are called on
MUTATORS = set('''append extend insert pop remove clear update setdefault add discard sort reverse
popitem popleft appendleft __keep__ __setitem__ __delitem__ difference_update intersection_update'''.split())

# Methods of library objects (files, archives, processes, responses)
# that act: name -> (exceptions, changes the file system)
ACT_METHODS = {
    'read': (('IOError',), False), 'readline': (('IOError',), False),
    'readlines': (('IOError',), False), 'write': (('IOError',), True),
    'writelines': (('IOError',), True), 'seek': (('IOError',), False),
    'tell': ((), False), 'flush': (('IOError',), False), 'close': ((), False),
    'truncate': (('IOError',), True),
    'extractall': (('OSError', 'IOError', 'tarfile.TarError'), True),
    'extract': (('?',), True),
    'extractfile': (('KeyError',), False), 'addfile': (('IOError',), True),
    'communicate': (('OSError', 'ValueError'), True), 'wait': (('OSError',), True),
    'poll': (('OSError',), False), 'kill': (('OSError',), True),
    'raise_for_status': (('requests.HTTPError',), False),
    'parse_args': (('SystemExit', '?'), False), 'parse_known_args': (('SystemExit', '?'), False),
    'iter_content': (('requests.RequestException',), False),
    'load': (('?',), False),
    'add_argument': ((), False), 'add_parser': ((), False), 'add_subparsers': ((), False),
    'set_defaults': ((), False), 'setLevel': ((), False), 'addHandler': ((), False),
    'setFormatter': ((), False), 'removeHandler': ((), False),
}
NO_RETURN_METHODS = {'error': 'SystemExit', 'exit': 'SystemExit'}
LOG_METHODS = set('debug info warning warn error critical exception log'.split())

STR_RESULT = set('''str repr os.path.join os.path.dirname os.path.basename os.path.abspath
os.path.normpath os.path.relpath os.path.realpath pipes.quote json.dumps os.getcwd
.strip .lstrip .rstrip .lower .upper .join .replace .hexdigest .encode .decode .format
platform.machine platform.system .title .capitalize tempfile.mkdtemp os.readlink .readline
.read fmt slicestr'''.split())
LIST_RESULT = set('''.split .rsplit .splitlines .readlines os.listdir sorted .getmembers
.getnames .namelist .keys .values .items shlex.split'''.split())


# parameters that may also be given by name: the leading ones of a call by keyword are put in their positions
SIGNATURES = dict((k, tuple(v.split())) for k, v in {
    'tarfile.open': 'name mode', '.add': 'name', '.addfile': 'tarinfo fileobj', '.extractall': 'path members',
    'tarfile.TarInfo': 'name', '.extractfile': 'member', 'zipfile.ZipFile': 'file mode', 'open': 'name mode',
    'requests.get': 'url', 'shutil.rmtree': 'path', 'shutil.copyfileobj': 'fsrc fdst', 'json.dump': 'obj fp',
    'json.dumps': 'obj', 'json.load': 'fp', 'json.loads': 's', 'os.walk': 'top', 'subprocess.Popen': 'args',
    'imp.load_source': 'name pathname', 'hashlib.new': 'name string', 're.compile': 'pattern flags',
    're.match': 'pattern string flags', 're.search': 'pattern string flags', 're.sub': 'pattern repl string',
    're.split': 'pattern string', 'os.makedirs': 'name', 'shutil.copy': 'src dst', 'shutil.move': 'src dst',
}.items())


def positional(name, args, kw):
    """the arguments with those given by keyword in their positions"""
    sig = SIGNATURES.get(name)
    if not sig or not kw:
        return args, kw
    args, kw = list(args), list(kw)
    while len(args) < len(sig):
        want = sig[len(args)]
        at = [i for i, (k, v) in enumerate(kw) if k == want]
        if not at:
            break
        args.append(kw.pop(at[0])[1])
    return args, kw

# values of the platforms the program runs on
CONSTANTS = {'os.pardir': '..', 'os.curdir': '.', 'os.sep': '/', 'os.path.sep': '/', 'os.path.pardir': '..',
             'os.path.curdir': '.', 'os.pathsep': ':', 'os.path.pathsep': ':', 'os.extsep': '.', 'os.linesep': '\n',
             'string.ascii_lowercase': 'abcdefghijklmnopqrstuvwxyz', 'string.digits': '0123456789'}
