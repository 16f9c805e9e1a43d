"""Instances of builtin types."""


def builtin_values():
    import array
    import asyncio
    import bz2
    import codecs
    import collections
    import contextvars
    import csv
    import ctypes
    import datetime
    import decimal
    import enum
    import fractions
    import functools
    import hashlib
    import hmac
    import io
    import itertools
    import json
    import lzma
    import operator
    import pathlib
    import pickle
    import queue
    import random
    import re
    import select
    import socket
    import sqlite3
    import string
    import struct
    import threading
    import types
    import weakref
    import xml.etree.ElementTree
    import zlib
    import zoneinfo
    import _thread

    def generator():
        yield

    async def coroutine():
        pass

    async def agenerator():
        yield

    class Weak:
        pass

    weak = Weak()
    builtin_values.keep = weak
    coro = coroutine()
    coro.close()
    makers = (
        lambda: 1, lambda: True, lambda: 1.5, lambda: 1j, lambda: 'a',
        lambda: b'a', lambda: bytearray(b'a'), lambda: memoryview(b'a'),
        lambda: [], lambda: (), lambda: {}, lambda: set(),
        lambda: frozenset(), lambda: range(2), lambda: slice(1),
        lambda: None, lambda: ..., lambda: NotImplemented, lambda: object(),
        lambda: int, lambda: type, lambda: len, lambda: generator,
        lambda: [].append, lambda: list.append, lambda: (1).__add__,
        lambda: int.__add__, lambda: generator(), lambda: agenerator(),
        lambda: coro, lambda: generator.__code__, lambda: types,
        lambda: iter([]), lambda: iter(()), lambda: iter({}),
        lambda: iter(''), lambda: iter(set()), lambda: iter(range(1)),
        lambda: {}.keys(), lambda: {}.values(), lambda: {}.items(),
        lambda: zip(), lambda: map(len, []), lambda: filter(None, []),
        lambda: enumerate([]), lambda: reversed([]), lambda: property(),
        lambda: staticmethod(len), lambda: classmethod(len),
lambda: Exception(), lambda: OSError(),
        lambda: KeyError(), lambda: StopIteration(),
        lambda: ExceptionGroup('x', [Exception()]),
        lambda: UnicodeDecodeError('a', b'', 0, 0, ''),
        lambda: list[int], lambda: int | None,
        lambda: types.SimpleNamespace(), lambda: types.MappingProxyType({}),
        lambda: types.MethodType(len, []), lambda: types.CellType(),
        lambda: re.compile('a'), lambda: re.match('a', 'a'),
        lambda: collections.deque(), lambda: collections.OrderedDict(),
        lambda: collections.defaultdict(int), lambda: collections.Counter(),
        lambda: collections.ChainMap(), lambda: collections.UserDict(),
        lambda: collections.UserList(), lambda: collections.UserString(''),
        lambda: io.StringIO(), lambda: io.BytesIO(),
        lambda: io.TextIOWrapper(io.BytesIO()),
        lambda: io.BufferedReader(io.BytesIO()),
        lambda: io.BufferedWriter(io.BytesIO()),
        lambda: io.BufferedRandom(io.BytesIO()), lambda: io.FileIO(0,
                                                                   closefd=0),
        lambda: datetime.datetime(1, 1, 1), lambda: datetime.date(1, 1, 1),
        lambda: datetime.time(), lambda: datetime.timedelta(),
        lambda: datetime.timezone.utc, lambda: decimal.Decimal(),
        lambda: decimal.Context(), lambda: fractions.Fraction(),
        lambda: array.array('i'), lambda: struct.Struct('i'),
        lambda: threading.Lock(), lambda: threading.RLock(),
        lambda: threading.Thread(), lambda: threading.Condition(),
        lambda: threading.Event(), lambda: threading.local(),
        lambda: random.Random(), lambda: random.SystemRandom(),
        lambda: hashlib.md5(), lambda: hashlib.sha256(),
        lambda: hashlib.blake2b(), lambda: hmac.new(b'', b'', 'md5'),
        lambda: zlib.compressobj(), lambda: zlib.decompressobj(),
        lambda: bz2.BZ2Compressor(), lambda: bz2.BZ2Decompressor(),
        lambda: lzma.LZMACompressor(), lambda: lzma.LZMADecompressor(),
        lambda: itertools.count(), lambda: itertools.chain(),
        lambda: itertools.cycle([]), lambda: itertools.repeat(1),
        lambda: itertools.islice([], 1), lambda: itertools.product(),
        lambda: itertools.accumulate([]), lambda: itertools.groupby([]),
        lambda: itertools.tee([])[0], lambda: functools.partial(len),
        lambda: functools.lru_cache(len), lambda: functools.cmp_to_key(len),
        lambda: operator.itemgetter(1), lambda: operator.attrgetter('a'),
        lambda: operator.methodcaller('a'), lambda: weakref.ref(weak),
        lambda: weakref.proxy(weak), lambda: weakref.WeakSet(),
        lambda: weakref.WeakKeyDictionary(),
        lambda: contextvars.ContextVar('x'),
        lambda: contextvars.copy_context(), lambda: csv.reader([]),
        lambda: csv.writer(io.StringIO()), lambda: csv.DictReader([]),
        lambda: ctypes.c_int(), lambda: ctypes.c_char_p(),
        lambda: (ctypes.c_int * 2)(), lambda: queue.SimpleQueue(),
        lambda: queue.Queue(), lambda: select.epoll(), lambda: select.poll(),
        lambda: sqlite3.connect(':memory:'),
        lambda: sqlite3.connect(':memory:').cursor(),
        lambda: pickle.Pickler(io.BytesIO()),
        lambda: pickle.Unpickler(io.BytesIO()),
        lambda: string.Template(''), lambda: string.Formatter(),
        lambda: json.JSONEncoder(), lambda: json.JSONDecoder(),
        lambda: pathlib.PurePath(), lambda: pathlib.Path(),
        lambda: xml.etree.ElementTree.Element('a'),
        lambda: xml.etree.ElementTree.TreeBuilder(),
        lambda: xml.etree.ElementTree.XMLParser(),
        lambda: zoneinfo.ZoneInfo.from_file(io.BytesIO()),
        lambda: codecs.getincrementalencoder('utf-8')(),
        lambda: codecs.lookup('utf-8'),
        lambda: codecs.getincrementaldecoder('euc_jp')(),
        lambda: enum.Enum('E', 'A').A, lambda: enum.IntFlag('F', 'A').A,
        lambda: enum.EnumMeta, lambda: __import__('typing').Generic,
        lambda: __import__('os').stat('.'), lambda: __import__('sys').flags,
        lambda: __import__('time').gmtime(0),
        lambda: __import__('os').scandir('.'),
        lambda: __import__('ast').parse('1'),
        lambda: __import__('symtable').symtable('', '', 'exec'),
        lambda: __import__('inspect').Signature(),
        lambda: __import__('typing').TypeVar('T'),
        lambda: __import__('uuid').UUID(int=1),
        lambda: __import__('ipaddress').IPv4Address(1),
        lambda: __import__('argparse').ArgumentParser(),
        lambda: __import__('logging').Logger('x'),
        lambda: __import__('configparser').ConfigParser(),
        lambda: __import__('difflib').SequenceMatcher(),
        lambda: __import__('graphlib').TopologicalSorter(),
        lambda: __import__('email.message').message.Message(),
        lambda: __import__('string.templatelib'),
        lambda: generator().gi_frame, lambda: _thread._local(),
    )
    for make in makers:
        try:
            value = make()
        except Exception:
            continue
        yield value
