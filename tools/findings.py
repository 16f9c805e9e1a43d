"""Source of known_findings.json (run: python tools/findings.py)."""
import json, pathlib
FIXED = '''
C04 8584c89 binding a keyword parameter again kept its previous default
C02 0d5d3e1 expects()/all_set() accepted positional and keyword values for one parameter when there were variadic keywords
C03 0d5d3e1 all_set() accepted positional and keyword values for one parameter when there were variadic keywords
C04 759c36c binding a keyword named as an already bound positional-only parameter failed with variadic keywords
C02 812d47f expects() could not be asked about a keyword named "self"
C03 812d47f all_set() could not be asked about a keyword named "self"
C04 812d47f a keyword named "self" could not be bound
C11 a08bf85 bound methods were looked up by name on the instance instead of using the underlying function
C11 cac9d10 method wrappers were looked up by name instead of using the class defining the slot
C11 a236f16 bound builtin methods were looked up by name instead of using the method itself
C11 8f12d8b builtin class methods kept the class parameter which is already bound
C13 0df3f85 first parameter of static methods was annotated as Self
C25 0df3f85 static methods without parameters failed with IndexError
C15 e68e082 constructors of stub classes were looked up by a wrong base path
C15 acc8bb1 named tuple classes of stubs had no constructor
C05 4eec228 equality of annotations was not symmetric/structural
C06 6658a46 equal objects had different hashes
C25 17fb805 obtaining signatures of methods of some builtin classes crashed the process
C07 a49433a representation of annotations could not be evaluated
C08 8da4491 optional parameters with unknown default were rendered as required ones
C23 928080e order of processed modules depended on hash randomization
C19 4373c40 concurrent queries saw partially evaluated stubs
C10 6110dff user-defined functions and classes named like ones from the standard library could get signatures of the latter
C13 f93fb3a builtin static methods (str.maketrans) were not found in stubs
C11 6552739 builtin methods bound to classes or None and builtin class methods inherited by user classes did not get the signature of the underlying method
C13 8858ee3 class methods of Python standard library classes were not found in stubs
C21 0c86b81 abnormal exit of the helper process made the importing process hang
C15 268b869 constructors of classes with several bases were not looked up along the method resolution order (ipaddress.IPv4Address, http.client.RemoteDisconnected)
C16 268b869 attributes of classes with several bases were not looked up along the method resolution order
C13 286d8da aliases of functions got the signature of a namesake declaration (tarfile.TarInfo.__init__, enum.Flag.__or__)
C13 0effeb9 factories declared by stubs as classes required an instance as the first argument (hashlib.sha3_224, threading.RLock)
C25 af3e8ac classes existing in stubs only whose runtime bases refuse to be subclassed made queries fail (ctypes.CDLL.__getattr__)
C14 af3e8ac annotations mentioning such classes could not be evaluated (ctypes.CFUNCTYPE)
C16 8baf19b aliases defined in a class body were treated as global ones (logging.Logger.fatal)
C17 a17c268 specializations of generics with equal spelling of arguments in different modules were mixed up, and inherited bases of specialized generics were not specialized themselves
C14 a17c268 methods inherited from specialized generics had annotations of unspecialized ones (collections.OrderedDict.update)
C17 e34a1d3 type parameters of generics were collected in a wrong order, so arguments were substituted for wrong type variables
C13 f739cf3 class methods and constructors of re-exported classes were not found in stubs (contextvars.ContextVar.__class_getitem__)
C16 e8455f9 attributes of modules and classes were looked up among builtins (enum.bin got the signature of builtins.bin)
C13 e8455f9 members of modules missing in stubs got signatures of namesake builtins
C16 23afcde aliases of members of modules imported from packages ("from . import module; alias = module.name") made importing fail
C16 e6aeb51 first of star imports won, and star imports had precedence over explicit imports and aliases following them
C16 83e80b5 private names were visible through star imports (_pydecimal._ContextManager got a stub of another module)
C13 83e80b5 _pydecimal._ContextManager got a stub it does not have
C13 bac2351 callables of extension modules were not found in stubs (_json.make_encoder)
C18 fe1009c answers depended on modules imported by previous queries (Fraction.__mod__ was described as Fraction.__add__ until statistics is imported, _sqlite3.Connection had no signature until sqlite3 is imported)
C13 c6ea18d declaration of a namesake had precedence over inherited declaration (socket.socket.close was described as the function socket.close)
C13 eacf106 members inherited from an alias of specialized generic had no declarations (configparser.RawConfigParser.popitem)
C13 2dbe607 positional-only parameters declared with "/" in stubs were lost
C05 122a910 signatures with equal specializations of dataclasses.InitVar were unequal
C07 122a910 string form of dataclasses.InitVar specialized by a class could not be evaluated
C18 122a910 two answers about dataclasses.InitVar.__class_getitem__ were unequal
C24 861baf2 the first import fixed start method of processes, the caller could not choose another one afterwards
C24 c02485c importing failed when warnings were errors (deprecated names of ast, deprecated and absent modules of the standard library)
C24 5a3f207 stubs were read with the encoding of the locale
C24 58b28c5 importing without the main module failed
C25 24379cf callables with arbitrary (for example not string) names of modules and objects made queries fail with AssertionError or AttributeError
C25 d237451 mocks (create_autospec) of methods of builtin classes made queries fail with AssertionError
C25 35c73c5 callables declared in stubs by unsupported expressions (f: Callable[[int], str] | None) raised TypeError instead of having runtime signatures
C25 6449e23 annotations of callables with omitted values (f: Callable[..., Any] = ...) were ignored
C25 855c6c1 callables annotated by unrestricted type variables in stubs raised ValueError
C16 7fa5363 submodules imported by their own packages (from . import sub) were resolved recursively without end
C25 7fa5363 submodules imported by their own packages (from . import sub) were resolved recursively without end
C05 bb84f88 signatures with defaults not equal to themselves (nan) were unequal to themselves
C05 8f296bb literals with equal values of different types (Literal[1], Literal[True]) were equal
C05 8bb5ed6 builtin generics of None (list[None]) were unequal to the typing ones (List[None])
C05 05d7196 unpacked builtin tuples (*tuple[int]) were equal to the packed ones
C07 05d7196 representation of unpacked builtin tuples lost unpacking
C05 66f299e annotations with variadic type variables could not be compared
C07 66f299e representation of variadic type variables could not be evaluated
C07 6968f2d representations of type aliases (PEP 695) could not be evaluated
C07 7166815 modules of forward references were lost by representations
C07 8423b2b representations of enumeration members could not be evaluated
C08 8423b2b string forms of enumeration members in literals and defaults were not valid headers
C07 df49323 namesake classes existing in stubs of different modules replaced each other, so their representations evaluated to other classes
C09 df49323 namesake classes existing in stubs of different modules replaced each other, so signatures mentioning them could not be pickled
C17 dee3c42 unary operations in arguments of generic bases (Base[Literal[-1]]) made queries fail
C14 31a7c16 classes existing in stubs only which have nested classes made queries fail (KeyError)
C25 31a7c16 classes existing in stubs only which have nested classes made queries fail (KeyError)
C09 6c38170 signatures mentioning named tuples, typed dictionaries and new types made by calls in stubs could not be pickled
'''
SHIM = ('importlib.machinery.BuiltinImporter.load_module is described by its '
        'stub, but a class method whose function has another name is looked '
        'up by the name of the function')
NEW = ('decimal.Decimal of pure Python implementation: the constructor has '
       'a module different from the module of its class')
BEFORE = ('names bound before a star import which exports them too keep the '
          'previous meaning (class, then star import)')
EARLIER = ('names imported explicitly before a star import which exports them '
           'too keep the previous meaning')
CONCATENATE = ('value of a parameters specification is not substituted into '
               'Concatenate (class G(Generic[P]) with Callable[Concatenate[X, '
               'P], ...] in the constructor)')
UNLISTED = 'public names missing in __all__ are exported by star imports'
FINDINGS = [
    *[(p, '_frozen_importlib:BuiltinImporter._load_module_shim', SHIM)
      for p in ('C13', 'C14')],
    *[(p, 'decimal:Decimal.__new__', NEW) for p in ('C13', 'C14')],
    *[('C17', f'vsgn.several3:S{i}', CONCATENATE) for i in (0, 1, 3)],
    *[('C16', f'vstb.star{i}a:f', BEFORE) for i in range(6)],
    *[('C16', f'{p}.star{i}e:f', EARLIER)
      for p in ('vspk', 'vstb') for i in range(6)],
    *[('C16', f'{p}.star{i}c:f', UNLISTED)
      for p in ('vspk', 'vstb') for i in range(1, 6)],
]
data = {'findings': [{'property': p, 'key': k, 'what': w}
                     for p, k, w in FINDINGS],
        'fixed': [f'fixed: property={l.split(" ", 1)[0]} '
                  f'{l.split(" ", 1)[1]}'
                  for l in FIXED.strip().splitlines()]}
(pathlib.Path(__file__).resolve().parent.parent
 / 'known_findings.json').write_text(json.dumps(data, indent=1) + '\n')
