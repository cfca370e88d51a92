#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the statements stay reviewable)."""
import json, pathlib

P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe=None, state=None):
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
                     mechanism=[dict(name=n, where=w) for n, w in mechanism],
                     state=state or [], observe_at=observe or [], hook_needed=None)))


PK = "pkm/src/pkm/"
CLI = "pkm-cli/src/pkm_cli/"

prop("C01", "Version ordering is the PEP 440 total order",
     "For any two package versions written in PEP 440 form, comparing them gives the order PEP 440 defines (epoch, release with zero padding, dev releases, pre-releases, final, post-releases, local labels), and the comparison operators are mutually consistent (exactly one of <, ==, > holds, <= and >= agree with them, transitive). Sorting a list of versions therefore gives the same result whatever the initial order.",
     ["inputs"], "all pairs and triples of standard versions, including epochs, pre/post/dev combinations and local labels",
     "tests compare about twenty hand picked pairs and never combine dev with pre/post releases or long local labels",
     [PK + "api/versions/version.py"],
     [("Version ordering", PK + "api/versions/version.py:Version._less/StandardVersion.__lt__"), ("Version equality", PK + "api/versions/version.py:StandardVersion.__eq__/__hash__")],
     ["Version.parse(a) < Version.parse(b)", "sorted([...])"])

prop("C02", "Version text: every spelling is understood, and text round-trips",
     "Every PEP 440 spelling of a version (case, separators, alternate pre/post/dev words, implicit numbers, leading v, surrounding spaces, zero padding, epoch) is read as the version it denotes, and the text of a version reads back as an equal version. Versions that are equal have equal hashes, and a text which is not a PEP 440 version never silently becomes a different standard version.",
     ["inputs"], "all PEP 440 spellings and near misses of them",
     "tests parse a handful of canonical strings; the spelling space is a product of a dozen independent choices",
     [PK + "api/versions/version_parser.py", PK + "api/versions/version.py"],
     [("version parser", PK + "api/versions/version_parser.py:parse_version"), ("text form", PK + "api/versions/version.py:StandardVersion.__str__")],
     ["Version.parse(text)", "str(version)"])

prop("C03", "Version specifiers admit exactly the versions their text denotes",
     "For every version specifier text (comma separated clauses of ==, !=, <, <=, >, >=, ~=, with .* where allowed, === or a bare *), a version is allowed exactly when it satisfies every clause under the documented semantics: zero-padded comparison, prefix matching for .*, compatible release for ~=, local labels ignored only where PEP 440 says so, and post-releases of a bound excluded from a range whose bound is not itself a post-release. Combining clauses in any order gives the same answer. A text that is no specifier is rejected instead of being read as another one.",
     ["inputs"], "all specifier texts x all versions, with versions generated close to the bounds",
     "tests check a few specifiers against a few versions; the boundary cases (padding, dev of the bound, local labels, epochs) are products of both",
     [PK + "api/versions/version_parser.py", PK + "api/versions/version_specifiers.py"],
     [("specifier parser", PK + "api/versions/version_parser.py:parse_specifier"), ("membership", PK + "api/versions/version_specifiers.py:VersionSpecifier.allows_version")],
     ["VersionSpecifier.parse(text).allows_version(v)"])

prop("C04", "Specifier algebra agrees with set algebra over versions",
     "For any specifiers A and B built by parsing and by combining other specifiers, a version is allowed by their intersection, union, difference or by the inverse of A exactly when the set operation on the allowed versions says so. A claimed 'allows all of' is never contradicted by a version allowed by one but not the other, 'allows any of' is false only if no version is allowed by both, and no operation changes its operands.",
     ["inputs", "histories"], "all expression trees of set operations over parsed specifiers, evaluated pointwise on versions near their bounds",
     "tests check some twenty operations on chosen ranges; nested unions of ranges, inverses of unions and mixed direct-reference specifiers are not covered",
     [PK + "api/versions/version_specifiers.py"],
     [("set operations", PK + "api/versions/version_specifiers.py:intersect/union_with/inverse/difference"), ("relations", PK + "api/versions/version_specifiers.py:allows_all/allows_any")],
     ["A.intersect(B).allows_version(v)", "A.inverse()", "A.allows_all(B)"])

prop("C05", "Requirement texts parse and print without changing meaning",
     "Every PEP 508 requirement (name, extras, specifier or direct reference, environment marker, any legal whitespace) parses into its parts, and printing the parsed requirement and parsing that text again gives an equal requirement: same package, extras, allowed versions, url and marker. Illegal requirement text is rejected rather than read as something else.",
     ["inputs"], "all requirements generated from the PEP 508 grammar",
     "tests only parse fixed requirements used by the resolver fixtures",
     [PK + "api/dependencies/dependency.py", PK + "api/versions/version_parser.py", PK + "api/dependencies/env_markers.py"],
     [("requirement parser", PK + "api/dependencies/dependency.py:Dependency.parse"), ("printing", PK + "api/dependencies/dependency.py:Dependency.__str__")],
     ["Dependency.parse(text)", "str(dependency)"])

prop("C06", "Environment markers evaluate per PEP 508",
     "An environment marker evaluates to the value PEP 508 gives it for the environment: 'and' binds tighter than 'or', parentheses group, versions compare as versions when both sides are versions and as strings otherwise, 'in'/'not in' test substrings, and an extra comparison is true exactly when that extra is (or is not) requested, names being compared normalized. A requirement is applicable to an environment exactly when it has no marker or its marker is true there.",
     ["inputs", "configurations"], "all marker expressions x environments x requested extras",
     "one test with a few fixed markers",
     [PK + "api/dependencies/env_markers.py", PK + "api/dependencies/dependency.py"],
     [("marker evaluation", PK + "api/dependencies/env_markers.py:PEP508EnvMarkerParser / EnvironmentMarker.evaluate_on")],
     ["EnvironmentMarker.parse(text).evaluate_on(env, extras)", "Dependency.is_applicable_for"])

prop("C07", "The solver returns a valid solution whenever one exists",
     "For any finite set of packages, versions and dependency constraints, resolution returns one version per needed package such that every chosen version's dependencies are satisfied, nothing unneeded is included, and the requested requirements hold; it fails with an unsolvable-problem report exactly when no such choice exists, and it always terminates. Several requirements on the same package are all honoured, a version whose metadata is unavailable is never chosen, and when every choice would do the preferred (newest, or already installed) version of a package is taken first.",
     ["inputs", "programs"], "all small package universes (packages x versions x constraint graphs, with cycles, conflicts and missing packages)",
     "eleven fixed universes; backtracking bugs need particular conflict shapes",
     [PK + "resolution/pubgrub.py", PK + "resolution/dependency_resolver.py"],
     [("solver", PK + "resolution/pubgrub.py:Solver.solve"), ("resolver", PK + "resolution/dependency_resolver.py:resolve_dependencies")],
     ["resolve_dependencies(root, env, repository)"])

prop("C08", "Resolution honours extras, markers, overrides and installed versions",
     "Resolving a project for an environment considers a requirement only if its marker applies there, pulls in the requirements of each requested extra (requested by any dependent) of a chosen package, treats package names that normalize alike as one package, replaces the version constraint of every requirement on an overridden package by the override, and reports unsatisfiable inputs instead of ignoring a constraint.",
     ["inputs", "configurations"], "package universes with extras, markers and overrides",
     "no existing test resolves through extras, markers or overrides",
     [PK + "resolution/dependency_resolver.py", PK + "api/packages/standard_package.py"],
     [("problem definition", PK + "resolution/dependency_resolver.py:_PkmPackageInstallationProblem")],
     ["resolve_dependencies(...)"])

prop("C09", "A repository query returns exactly the matching, usable releases",
     "Asking a repository for a requirement returns exactly its releases whose version the requirement allows and that are compatible with the environment (interpreter version and at least one installable artifact), newest first; pre-releases and dev-releases are offered only if the requirement itself admits them explicitly, the user asked for them, or there is nothing else. File, directory, simple-index and warehouse-JSON repositories all read their listing faithfully: yanked and unusable files are never offered, and names match after normalization.",
     ["inputs", "configurations"], "all listings x requirements x environments",
     "one test on one listing",
     [PK + "api/repositories/repository.py", PK + "repositories/simple_repository.py", PK + "repositories/pypi_repository.py", PK + "repositories/file_system_repository.py", PK + "api/packages/standard_package.py"],
     [("match", PK + "api/repositories/repository.py:AbstractRepository.match"), ("filtering", PK + "api/repositories/repository.py:_filter_prereleases")],
     ["repository.match(dependency, env)", "repository.list(name, env)"])

prop("C10", "Artifact choice follows the environment's compatibility tags",
     "A wheel is considered installable in an environment exactly when one of its python-abi-platform tag combinations (compressed sets expanded) is supported by that interpreter, ABI and platform, including the manylinux/musllinux glibc/musl and macOS version rules; a more specific supported tag always outranks a less specific one. Among the artifacts of a release the most specific compatible wheel is chosen, and a source archive only when no wheel is compatible.",
     ["inputs", "configurations"], "all wheel tags x interpreter/platform introspections",
     "no existing test covers tag scoring",
     [PK + "api/environments/environment_introspection.py", PK + "api/packages/standard_package.py"],
     [("tag scoring", PK + "api/environments/environment_introspection.py:compatibility_score"), ("best artifact", PK + "api/packages/standard_package.py:best_artifact_for")],
     ["introspection.compatibility_score(tag)", "package.best_artifact_for(env)"])

prop("C11", "Lock files keep their choices, per environment",
     "Locking an environment records the exact versions installed in it, for that kind of environment only: entries recorded for other kinds of environments survive, and reading a saved lock file gives back the same entries. Resolving with a lock prefers each locked version whenever it is among the allowed candidates, never offers anything the repository would not have offered, and loses no candidate.",
     ["inputs", "histories", "configurations"], "histories of locking different environments, saving and reloading, and of resolving with the lock",
     "no existing test touches the lock file",
     [PK + "resolution/packages_lock.py"],
     [("update_lock", PK + "resolution/packages_lock.py:PackagesLock"), ("prioritizing repository", PK + "resolution/packages_lock.py:LockPrioritizingRepository")],
     ["etc/pkm/packages-lock.toml"])

prop("C12", "Installing a wheel reproduces its content and a truthful RECORD",
     "After a wheel is installed, every file it carries exists at the location its wheel layout dictates (purelib/platlib, and scripts, headers, data and so on from its data folders) with identical bytes (script interpreter lines rewritten), its declared entry points exist as runnable commands, and nothing else was written except bookkeeping. The installed record lists every file of the package with its true hash and size, names the installer, and says whether the package was requested by the user.",
     ["inputs"], "all wheel contents generated from the wheel layout grammar",
     "no stable test installs a wheel",
     [PK + "api/distributions/wheel_distribution.py", PK + "api/distributions/distinfo.py"],
     [("wheel installation", PK + "api/distributions/wheel_distribution.py:_WheelInstaller / install_to")],
     ["site-packages content", "*.dist-info/RECORD"])

prop("C13", "A failed package installation changes nothing",
     "If installing a wheel fails at any point (a damaged archive, a conflicting existing file, a disk operation failing half way), the target environment is left exactly as it was: no file added, changed or removed, and the package is not reported as installed.",
     ["crash_points", "fault_sequences", "inputs"], "every file operation of an installation failing in turn, for generated wheels and pre-existing target contents",
     "no test injects faults",
     [PK + "api/distributions/wheel_distribution.py", PK + "utils/files.py"],
     [("copy transaction", PK + "utils/files.py:CopyTransaction")],
     ["file tree of the target environment before and after"])

prop("C14", "Tampered or malformed wheels are refused",
     "A wheel whose content disagrees with its own RECORD (a file changed, added without a record, missing, or with another hash), whose record or metadata is missing or for another package, or whose files would land outside the installation directories, is refused with an error and nothing is installed; a difference that is confined to the files of the dist-info folder itself is at least reported by a warning.",
     ["inputs", "fault_sequences"], "all single mutations of generated valid wheels",
     "no test tampers with a wheel",
     [PK + "api/distributions/wheel_distribution.py", PK + "api/distributions/distinfo.py", PK + "utils/archives.py", PK + "utils/hashes.py"],
     [("record verification", PK + "api/distributions/wheel_distribution.py:_verify_records / Record")],
     ["install outcome and target tree"])

prop("C15", "Uninstalling removes exactly what installation added",
     "Over any history of installing, replacing and uninstalling packages whose files do not collide, the installed-package listing and the files on disk are at every moment exactly those of the packages currently installed: removing a package restores the tree to what it would be without it, never touches a file of another package or a file outside the environment, and empties no directory another package uses. Lookup by any spelling of a package's name finds it.",
     ["histories", "inputs"], "sequences of install/uninstall operations with packages sharing namespaces and directories",
     "no stable test installs or uninstalls",
     [PK + "api/packages/site_packages.py", PK + "api/distributions/wheel_distribution.py", PK + "api/distributions/distinfo.py"],
     [("uninstall", PK + "api/packages/site_packages.py:InstalledPackage.uninstall"), ("listing", PK + "api/packages/site_packages.py:SitePackages.installed_packages")],
     ["site-packages tree", "SitePackages.installed_packages()"])

prop("C16", "Package operations keep an environment consistent with user requests",
     "After any sequence of successful install, update and uninstall requests made by the user on an environment, every dependency of every installed package is satisfied, every user-requested package is present at an allowed version and marked as requested, and every other installed package is needed by a requested one; uninstalling a package that others still need keeps it but no longer as requested. A request that cannot be satisfied changes nothing, planning without applying changes nothing, and the applied result equals the plan.",
     ["histories", "configurations"], "operation sequences over generated package universes against a model environment",
     "no stable test performs package operations",
     [PK + "api/packages/package_installation.py", PK + "api/packages/site_packages.py", PK + "api/environments/environment.py"],
     [("planning", PK + "api/packages/package_installation.py:PackageInstallationTarget"), ("orphans", PK + "api/packages/site_packages.py:find_orphan_packages")],
     ["env.install/uninstall", "installed packages and REQUESTED markers"])

prop("C17", "TOML files are read as the TOML specification says",
     "Any valid TOML document (strings of all four kinds with escapes, numbers in every base and notation, dates, arrays, inline tables, dotted keys, nested tables and arrays of tables, comments) loads into the same values a conforming TOML reader gives. A document that is not valid TOML is rejected with an error rather than being misread, truncated or looping.",
     ["inputs"], "all documents of the TOML grammar",
     "the existing toml test is a single fixed document",
     [PK + "config/toml.py"],
     [("parser", PK + "config/toml.py:TOMLParser / loads")],
     ["toml.loads(text)"])

prop("C18", "Saving TOML keeps the values and the user's formatting",
     "Any configuration value written as TOML reads back equal, by this reader and by a conforming TOML reader. When a document is loaded, edited and saved, the result holds exactly the edited values; loading and saving with no edit keeps comments, and an edit leaves the comments and key order of the parts it did not touch in place (sections that were written out of order may be grouped).",
     ["inputs", "histories"], "all configuration trees, and all edit sequences on loaded documents",
     "existing test dumps one document",
     [PK + "config/toml.py", PK + "config/configfiles.py"],
     [("writer", PK + "config/toml.py:dumps / TOMLWriter")],
     ["toml.dumps(value)", "configuration.save()"])

prop("C19", "Configuration files and typed settings round-trip",
     "Saving a value to any supported configuration file kind (JSON, INI, CSV, wheel header file) and loading it back gives the same value, and a typed configuration object that is written and re-read is equal, with unknown fields preserved on update. A missing required field, or a value that cannot be read as its field's type (version, specifier, requirement, enumeration), is reported instead of being guessed.",
     ["inputs"], "all values of each format and all typed configuration objects",
     "no test covers them",
     [PK + "config/configfiles.py", PK + "config/configclass.py"],
     [("config io", PK + "config/configfiles.py:ConfigIO"), ("typed config codec", PK + "config/configclass.py:ConfigCodec")],
     ["load(path)", "save(path)"])

prop("C20", "Project files survive load, edit and save",
     "Loading a pyproject file and saving it without a change keeps every project setting, however often it is repeated; changing one setting (version, dependencies, optional dependencies, authors, entry points, urls) changes only that setting. What is read from a file written per PEP 621 (authors given only by e-mail, optional dependencies with markers, scripts, gui scripts and entry points) is what that specification says.",
     ["inputs", "histories"], "all valid PEP 621 project tables x edits x repetitions",
     "the existing pyproject test loads fixed files",
     [PK + "api/projects/pyproject_configuration.py"],
     [("project config", PK + "api/projects/pyproject_configuration.py:ProjectConfig.from_config/to_config")],
     ["PyProjectConfiguration.load/save"])

prop("C21", "File transactions are all-or-nothing",
     "When a group of file operations (copy, move, remove, create directories) is performed as a transaction and any one fails, every path touched is restored to exactly its previous content, and directories created for it are gone; when it succeeds, the result is exactly that of the operations. Copied trees are equal to their source.",
     ["fault_sequences", "histories"], "operation sequences over generated trees with a fault at every position",
     "no test covers transactions",
     [PK + "utils/files.py"],
     [("CopyTransaction", PK + "utils/files.py:CopyTransaction")],
     ["file tree"])

prop("C22", "Hash signatures accept exactly the signed content",
     "A content signature computed for a file validates that file and no file with other content, in every supported algorithm and encoding (hex digests, url-safe base64 record digests), and its text form parses back to an equal signature. Record lines keep path, hash and size through write and read, including paths with commas, quotes and spaces.",
     ["inputs"], "all contents, algorithms and paths",
     "no test covers hashes",
     [PK + "utils/hashes.py", PK + "api/distributions/distinfo.py"],
     [("signature", PK + "utils/hashes.py:HashSignature"), ("record file", PK + "api/distributions/distinfo.py:RecordsFileConfiguration")],
     ["HashSignature.parse/create/validate_against"])

prop("C23", "Archives extract to their target directory and nowhere else",
     "Extracting an archive (zip, tar, compressed tar) recreates its files under the target directory byte for byte, and never creates or changes anything outside it whatever the member names or links say. Path containment answers are by path component: a directory contains exactly itself and what lies below it.",
     ["inputs"], "all member names including traversal, absolute and link members",
     "no test covers extraction",
     [PK + "utils/archives.py", PK + "utils/files.py"],
     [("extraction", PK + "utils/archives.py:extract_archive"), ("containment", PK + "utils/files.py:is_relative_to")],
     ["file tree around the target"])

prop("C24", "Built distributions carry the project's content and metadata",
     "Building a project gives a wheel and a source archive that hold exactly the project's packages (with the files it asks for) and metadata equal to its project table, with a valid record; building a wheel from the unpacked source archive gives the same content as building it directly. Building leaves the project's own files unchanged, and an editable wheel makes the project's packages importable from their sources.",
     ["inputs", "configurations"], "all generated project layouts and project tables",
     "no stable test builds; build.sh builds two fixed projects",
     [PK + "build/pkm_builders.py", PK + "api/projects/project.py", PK + "api/distributions/distinfo.py"],
     [("builders", PK + "build/pkm_builders.py:build_wheel/build_sdist")],
     ["content of the built archives"])

prop("C25", "Version bumps move forward and touch only the version",
     "Bumping a project version at a chosen particle gives the version that semantic versioning prescribes for that particle: strictly newer than before, with lower particles reset, and the project file changes in its version only. Bumping pre-release particles moves along alpha, beta, release candidate, final and never backwards.",
     ["inputs", "histories"], "all versions x particles, and sequences of bumps",
     "a single test bumps one version",
     [PK + "api/versions/version.py", PK + "api/projects/project.py"],
     [("bump", PK + "api/versions/version.py:StandardVersion.bump"), ("bump_version", PK + "api/projects/project.py:Project.bump_version")],
     ["Project.bump_version(particle)"])

prop("C26", "Project groups list, find and change their members consistently",
     "A project group lists exactly the projects its configuration names (including nested groups), a member project finds its group, and the group finds its members. Adding a project makes it a member exactly once, removing it makes it a non-member, other members and settings are untouched, and reloading the group from disk gives the same membership.",
     ["histories", "configurations"], "directory layouts x sequences of add/remove/reload",
     "no stable test covers groups",
     [PK + "api/projects/project_group.py"],
     [("membership", PK + "api/projects/project_group.py:ProjectGroup")],
     ["ProjectGroup.children/add/remove/of"])

prop("C27", "Packages come from the repositories the configuration selects",
     "For every package the repositories consulted, and their order, are those the documented search order gives: a package bound to repositories is looked up only there, other packages are looked up in the non bind-only repositories in their listed order and then, according to the inheritance mode, in the surrounding context, the global configuration or nowhere else. The first repository having a match decides, every configured repository keeps its own name and arguments, and reading the configuration never modifies it.",
     ["configurations", "histories"], "all repository configurations at project, environment and global level, and edits of them",
     "no test covers repository configuration",
     [PK + "api/repositories/repository_loader.py", PK + "api/repositories/repository_management.py", PK + "api/repositories/repositories_configuration.py"],
     [("composition", PK + "api/repositories/repository_loader.py:RepositoryLoader.load / _CompositeRepository"), ("management", PK + "api/repositories/repository_management.py")],
     ["which repository receives match(dependency)"])

prop("C28", "Cached HTTP resources are what the server published",
     "A fetched resource is byte-identical to what the server sent for that url, an incomplete or failed transfer raises and leaves neither a partial file nor a stale success behind, redirects are followed to their final target within the limit, and the declared cache policy is honoured: never re-fetch when told to reuse, revalidate when told to ask, so that after a change on the server the next revalidating request sees it. Different urls never share a cache entry and cache files stay inside the cache directory.",
     ["histories", "fault_sequences", "inputs"], "request/server-change/fault histories against a local scripted server",
     "no test covers the HTTP client",
     [PK + "utils/http/http_client.py", PK + "utils/http/cache_directive.py"],
     [("fetch_resource", PK + "utils/http/http_client.py:HttpClient.fetch_resource"), ("cache directives", PK + "utils/http/cache_directive.py")],
     ["requests seen by the server, bytes returned"])

prop("C29", "Uploads are complete, well-formed multipart forms",
     "A form sent by the publisher decodes, with a conforming multipart reader, to exactly the given fields and files in order, whatever their names and bytes, and its declared length is the number of bytes sent. The credentials and metadata of a published package reach the server unchanged.",
     ["inputs"], "all field and file lists, chunk sizes",
     "no test covers uploads",
     [PK + "utils/http/mfd_payload.py", PK + "repositories/pypi_repository.py"],
     [("multipart payload", PK + "utils/http/mfd_payload.py:MultipartFormDataPayload")],
     ["bytes of the payload"])

prop("C30", "Promises settle once and notify every observer once",
     "Whatever the order in which a promise is started, awaited, chained and completed (with a value or an error), it settles exactly once, every observer registered before or after completion is called exactly once with the final outcome, and waiters get the value or the raised error. Cached attributes are computed once per object until cleared.",
     ["schedules", "histories"], "all interleavings of registration and completion on a controlled executor",
     "no test covers them",
     [PK + "utils/promises.py", PK + "utils/properties.py"],
     [("Promise", PK + "utils/promises.py:Promise"), ("cached_property", PK + "utils/properties.py:cached_property")],
     ["callback invocations"])

prop("C31", "Collection helpers agree with their list models",
     "The sequence, iterator, dictionary and string helpers give the result their list or dict counterpart would (grouping, partitioning, distinct, single element, mapping, filtering, sorting, put-if-absent and so on) for every input, including empty and one-shot iterables, without consuming or changing more of their input than documented.",
     ["inputs"], "all small inputs and chains of operations",
     "no test covers them",
     [PK + "utils/iterators.py", PK + "utils/seqs.py", PK + "utils/dicts.py", PK + "utils/sequences.py", PK + "utils/strings.py"],
     [("helpers", PK + "utils/seqs.py:Seq"), ("iterators", PK + "utils/iterators.py")],
     ["return values"])

prop("C32", "Command lines bind to the values their definition describes",
     "For any command definition (positional arguments with fixed, optional or unbounded counts, options with short and long names, flags, repeatable and mutually exclusive options, defaults, nested commands), a command line built to give certain values parses to exactly those values and that command, whatever legal spelling and order is used. A line that omits a required value, repeats a single one, or has an unknown or conflicting option is reported as an error and never bound to something else. (Options may stand before and between complete positional arguments; an unbounded positional takes everything that follows its first value; flags may be repeated.)",
     ["inputs", "programs"], "all command definitions x legal and illegal command lines",
     "the existing tests of the command line parser all fail to run",
     [CLI + "api/dynamic_cli/command_parser.py", CLI + "api/dynamic_cli/method_parser.py"],
     [("parser", CLI + "api/dynamic_cli/command_parser.py:DynamicCommandLine"), ("method commands", CLI + "api/dynamic_cli/method_parser.py")],
     ["parsed command path and arguments"])

prop("C33", "Templates render exactly their files and never destroy others",
     "Rendering a template creates exactly the files the template describes, with names and contents substituted, preserved files copied as they are and ignored ones left out. Without permission to overwrite, no existing file is changed and the conflict is reported, as it is when two files of the template meet in one target; files not produced by the template are never touched.",
     ["inputs", "configurations"], "all template trees x pre-existing target trees x overwrite settings",
     "no test covers templates",
     [CLI + "api/templates/template_runner.py"],
     [("template runner", CLI + "api/templates/template_runner.py:TemplateRunner")],
     ["target tree"])

prop("C34", "Stored publishing credentials are recoverable and secret",
     "Credentials stored in the publishing store are returned unchanged after saving and reopening with the right password, adding or removing one entry leaves the others as they were, a wrong password is refused without damaging the store, and neither password nor secrets appear in the file in clear.",
     ["histories", "inputs"], "sequences of add/remove/lookup/reopen with generated names and secrets",
     "no test covers the store",
     [CLI + "auth/publish_auth_store.py"],
     [("store", CLI + "auth/publish_auth_store.py:PublishAuthenticationStore")],
     ["store file", "auth_args_for(repository)"])

prop("C35", "Package names compare normalized everywhere",
     "Two spellings of a package name that PEP 503 normalizes alike denote the same package in every comparison, hash, lookup, expected file name and archive-name parse, and two that do not are never confused. A release's file names parse back to the name, version and tags they were made from.",
     ["inputs"], "all names, spellings of them and release file names",
     "tests use lower case names only",
     [PK + "api/packages/package.py", PK + "api/packages/standard_package.py"],
     [("PackageDescriptor", PK + "api/packages/package.py:PackageDescriptor")],
     ["PackageDescriptor equality, hash and file names"])

prop("C36", "Package metadata files round-trip",
     "Package metadata written to a core-metadata file reads back unchanged: name, version, requirements, supported interpreter range, summary, people, multi-valued fields, extras and the (multi-line) description. Metadata written by other tools in the standard format is read with the same meaning.",
     ["inputs"], "all metadata records, including multi-line and non-ASCII descriptions",
     "no test covers metadata files",
     [PK + "api/packages/package_metadata.py", PK + "config/configfiles.py"],
     [("metadata", PK + "api/packages/package_metadata.py:PackageMetadata")],
     ["METADATA file", "PackageMetadata.load"])

prop("C37", "Entry points, scripts and command lines run what they name",
     "An entry-point declaration parses into its module, object and extras and prints back the same, and the command generated for it runs that object and returns its result. A command text is split into the words a POSIX shell gives it, and launch scripts start the chosen interpreter.",
     ["inputs"], "all entry point references and command texts",
     "no test covers them",
     [PK + "utils/entrypoints.py", PK + "api/distributions/distinfo.py", PK + "utils/processes.py", PK + "launchers/executables.py"],
     [("entry points", PK + "utils/entrypoints.py:EntryPoint / ObjectReference"), ("split_command", PK + "utils/processes.py:split_command")],
     ["generated scripts", "ObjectReference.parse"])

prop("C38", "Cached source builds are reused only for the same source and target",
     "A wheel built from source is reused only for the same package, version, source content and kind of environment; otherwise it is built anew, and building never loops on packages that need each other to build but reports the cycle. A failed build leaves nothing behind that a later request would take for a result.",
     ["histories", "fault_sequences"], "histories of build requests with changed sources, environments and failures",
     "no test covers source builds",
     [PK + "build/source_build_cache.py", PK + "build/external_builders.py"],
     [("source build cache", PK + "build/source_build_cache.py:SourceBuildCache"), ("cycle detection", PK + "build/external_builders.py")],
     ["cache directory and returned wheels"])

prop("C39", "Conda packages are selected and installed faithfully",
     "A conda channel query returns exactly the builds whose version and dependency constraints match the request and environment, newest first, and conda dependency specifications are translated to equivalent version constraints. Only builds of the environment's platform (or none) are offered, and installing one puts its files and entry points where they belong in the environment. A downloaded conda package whose digest differs from the channel's is refused.",
     ["inputs", "configurations"], "all channel indexes and match specifications",
     "no test covers conda",
     ["repositories/conda-pkm-repo/src/conda_pkm_repo/conda_channel_subdir.py", "repositories/conda-pkm-repo/src/conda_pkm_repo/conda_distribution.py"],
     [("channel", "repositories/conda-pkm-repo/src/conda_pkm_repo/conda_channel_subdir.py")],
     ["match results"])

prop("C40", "Torch builds are ordered by the chosen compute platform",
     "The torch repository offers exactly the releases of the listed builds, the builds for the compute platform the machine supports (the newest supported CUDA not above the driver's, else CPU) before the others, and never offers a build for a CUDA version the driver cannot run when the platform is detected.",
     ["inputs", "configurations"], "all index pages x driver versions",
     "no test covers it",
     ["repositories/download-torch-pkm-repo/src/download_torch_pkm_repo/torch_repository.py", "repositories/download-torch-pkm-repo/src/download_torch_pkm_repo/cuda_compatibility.py"],
     [("priority", "repositories/download-torch-pkm-repo/src/download_torch_pkm_repo/torch_repository.py")],
     ["match results"])

prop("C41", "Environment zoos share packages without mixing environments",
     "In an environment zoo that shares package files, installing, upgrading and removing packages in one environment is observably the same as without sharing, and never changes the packages another environment of the zoo sees. Clean-up removes exactly the shared packages no environment uses.",
     ["histories", "configurations"], "histories of operations over several environments of a zoo",
     "no test covers zoos",
     [PK + "repositories/shared_pacakges_repo.py", PK + "api/environments/environments_zoo.py"],
     [("shared packages", PK + "repositories/shared_pacakges_repo.py:SharedPackagesRepository")],
     ["packages each environment sees"])

prop("C42", "Application containers are isolated and fully removable",
     "Installing an application in a container makes exactly its exposed commands available and its packages importable only by it; updating it, changing its plugins and removing it affect no other application's packages or commands, and after removal nothing of it remains. Listing the installed containers reflects exactly the operations performed, across reloads.",
     ["histories"], "histories of install/uninstall over several containers",
     "no test covers containers",
     [PK + "api/environments/package_containers.py"],
     [("containers", PK + "api/environments/package_containers.py")],
     ["containers directory and bin links"])

prop("C43", "Project tasks run with their given arguments, dependencies and order",
     "Running a task (of the project, or offered by an installed package) calls its run function once in the project's environment with exactly the given arguments, converted to their annotated types; tasks it runs get the arguments it gives and run where it asks. Tasks attached to a command run once before and once after that command and no other, see its arguments, and are skipped when tasks are disabled; packages cannot attach tasks. A failure of any of them, an unknown task or a wrong argument stops everything that would follow and is reported by the exit status.",
     ["programs", "configurations"], "all task definitions and attachments",
     "no test covers tasks",
     [CLI + "api/tasks/tasks_runner.py", CLI + "api/tasks/tasks_executor.py"],
     [("tasks runner", CLI + "api/tasks/tasks_runner.py:TasksRunner")],
     ["execution trace"])

prop("C44", "Progress monitoring nests and never alters the outcome",
     "Events reported while an operation runs reach exactly the listener in effect at that point (of each event type, the innermost that was installed), and leave no listener behind after the operation ends by return or exception; the monitored operation's result or error passes through unchanged.",
     ["histories", "inputs"], "nesting structures of monitored operations with errors",
     "no test covers monitors",
     [PK + "utils/monitors.py"],
     [("monitors", PK + "utils/monitors.py")],
     ["events received"])

prop("C45", "Git requirements install the revision they name",
     "Installing a requirement on a git repository (address with or without user information and port, over http or a file address; default revision, branch, tag, full or abbreviated commit id; a repository of one project or a member of a project group) installs the content and the version that the project has in the commit that is named at that time, and records the request. What was requested, failed, was killed or ran at the same time before does not change this; a revision that does not exist, or a repository that cannot be reached for the first time, fails and changes nothing.",
     ["histories", "inputs", "fault_sequences", "schedules"], "repositories x references x address forms x histories of requests into several environments, with failing, stalling and killed fetches",
     "no test covers git requirements",
     [PK + "repositories/git_repository.py"],
     [("git repository", PK + "repositories/git_repository.py:GitRepository._do_match"), ("clones", PK + "repositories/git_repository.py:_Git.clone/update")],
     ["Environment.install([Dependency.parse('x @ git+http://host/repo@ref')])", "import of the installed module"])

prop("C46", "Direct URL requirements install exactly the archive at that address",
     "Installing a requirement that names the address of an archive (http or file; wheel or source distribution; with redirects, queries, escapes, compressed transfer, or a fragment) installs that archive's package, version, content and dependencies (of the requested extras) and records the request, whatever was installed or requested for that package before. It is refused, leaving every other package as it was, when nothing is there, the archive is of another package or cannot run in the environment, its bytes do not have the hash that the address gives, or another requirement in force names another address for that package; bytes with a wrong hash are not kept, so that a later attempt gets the right ones. The request stays in force in later installs.",
     ["histories", "inputs", "fault_sequences"], "archives x address forms x server behaviours x histories of requests mixed with requests on a repository",
     "no test covers requirements by url",
     [PK + "repositories/url_repository.py", PK + "repositories/file_repository.py", PK + "api/packages/package_installation.py"],
     [("url repository", PK + "repositories/url_repository.py:UrlRepository/UrlPackage"), ("file repository", PK + "repositories/file_repository.py:FileRepository"), ("operations of a plan", PK + "api/packages/package_installation.py:InstallationPlan.compute_operations_for_target")],
     ["Environment.install([Dependency.parse('x @ http://host/x-1.0-py3-none-any.whl#sha256=...')])", "content of the installed module, its user request"])

prop("C47", "A project's dependencies, environment and lock stay in step",
     "Adding, removing, installing and updating dependencies of a project from the command line (into the project or one of its optional groups), in any order, with hand edits of pyproject.toml, version bumps, lost environments, published and withdrawn releases and releases whose installation fails in between: after each command that succeeds, pyproject.toml lists exactly the dependencies that were asked for (other content preserved, each in its group), the project is installed once with metadata that matches, every requirement reachable from it that applies here is satisfied by what is installed, packages that nothing asks for any more are gone and those that still fit were kept unless an update was asked for, and an environment that is rebuilt gets the locked versions while they are still offered. A command that cannot be fulfilled has no solution, and leaves the project's configuration as it was.",
     ["histories", "inputs", "fault_sequences"], "histories of commands and outside changes x package universes x initial project files",
     "tests never drive a project through a history of commands",
     ["pkm-cli/src/pkm_cli/controllers/prj_controller.py", PK + "api/projects/project.py", PK + "resolution/packages_lock.py"],
     [("project controller", "pkm-cli/src/pkm_cli/controllers/prj_controller.py"), ("dependency edits", PK + "api/projects/project.py:Project.install_dependencies/remove_dependencies"), ("lock", PK + "resolution/packages_lock.py:PackagesLock")],
     ["pkm_cli.main.main(['pkm','-c',project,'install',...])", "pyproject.toml, dist-info folders and the lock after every command"])

prop("C48", "Commands act on the context and repositories they were given",
     "From any directory of any nesting of projects, project groups, environments and zoos, with any spelling of -c, -g and -s, a command acts on the nearest context of a kind that it accepts (or exactly on the one it was given), and is refused when there is none. `pkm install` in an environment obtains each requested package from the repository that was given to the command (-r by name, -R by type and arguments) or that the package was bound to by an earlier command, keeps packages that fit unless update or force is given, saves exactly those bindings, puts applications into one container each whatever spelling of their name is used, and a command that is not well-formed changes nothing.",
     ["inputs", "histories"], "directory trees x working directories x options; histories of install commands x repositories",
     "tests cover neither the lookup of contexts nor the options of install",
     ["pkm-cli/src/pkm_cli/main.py", "pkm-cli/src/pkm_cli/utils/context.py", PK + "api/environments/package_containers.py"],
     [("context lookup", "pkm-cli/src/pkm_cli/utils/context.py:Context"), ("install command", "pkm-cli/src/pkm_cli/main.py:install"), ("containers", PK + "api/environments/package_containers.py:PackageContainers.install")],
     ["pkm_cli.main.main(['pkm','install',...])", "Context.of(cmd).run(...)", "site-packages, repositories.toml and container folders after every command"])

prop("C49", "Interpreters are found, and environments match their interpreter",
     "Every working python interpreter on the search paths is found exactly once (through whatever aliases), broken ones and look-alikes are skipped, and the newest one that matches a specifier is chosen. An environment created from an interpreter, at any path, is complete, refuses to replace anything that exists, and at all times (reloaded, moved, with a damaged or unwritable cache, or with its interpreter replaced by another version) has the paths, version, markers and compatible artifacts that its own interpreter reports. Processes run in an environment see it activated, with the variables they were given, and activation restores every variable, also when nested or interrupted by an error.",
     ["inputs", "histories", "configurations"], "trees of interpreters x search paths x specifiers; environments x histories of outside changes; processes x variables",
     "tests use the one interpreter that runs them",
     [PK + "api/environments/environment_builder.py", PK + "api/environments/installed_pythons_locator.py", PK + "api/environments/environment.py", PK + "api/environments/environment_introspection.py"],
     [("locator", PK + "api/environments/installed_pythons_locator.py:InstalledPythonsLocator"), ("builder", PK + "api/environments/environment_builder.py:EnvironmentBuilder"), ("activation", PK + "api/environments/environment.py:Environment.activate/run_proc/exec_proc"), ("introspection cache", PK + "api/environments/environment_introspection.py:EnvironmentIntrospection.load_or_compute")],
     ["InstalledPythonsLocator.all_installed/match", "EnvironmentBuilder.create/create_matching", "Environment.installation_target/markers/run_proc"])

prop("C50", "Worker processes run every task once and lose none",
     "Each task that is given to the pool of worker processes settles exactly once, with the value its function returns (of any size) or a failure that tells its reason, after its function ran exactly once (not at all if it was canceled or could not be sent). No task harms another one, whatever it does: end or crash its worker, print, write to the raw descriptors, start processes that use them, return what cannot be sent back or read. What tasks print arrives at the streams of the program. As many tasks as there may be workers are executed side by side, no more workers than allowed run at a time, idle ones end and are replaced when needed, and closing the pool completes all waiting tasks and ends all workers.",
     ["schedules", "histories", "fault_sequences"], "histories of tasks submitted from several threads x pool sizes x periods of inactivity",
     "no test runs the pool on its own",
     [PK + "utils/multiproc/__init__.py"],
     [("workers", PK + "utils/multiproc/__init__.py:_Worker/_WorkerHandler"), ("pool", PK + "utils/multiproc/__init__.py:ProcessPoolExecutor"), ("cancellation", PK + "utils/multiproc/__init__.py:_TaskResult")],
     ["ProcessPoolExecutor.execute/close"])

prop("C51", "Distributions and caches: built completely, cleaned precisely, sent as built",
     "Over any history of builds (also ones that fail or are interrupted at any file operation), source edits, version changes, cleanings, publications and foreign files or links in the directory of distributions: a build that succeeds leaves exactly the distributions that the project's configuration asks for, made of its current source and version, where they were asked for, and a build that fails leaves that directory as it was. Cleaning removes everything but the kept versions and nothing that lies elsewhere. Publishing builds what is missing and sends each distribution of the current version once, as it was built, with the given credentials, and reports failing uploads. Cleaning the caches removes what was cached, keeps configuration and all other content, and what was cached is obtained again as it is now.",
     ["histories", "fault_sequences", "configurations"], "histories of builds, failures, edits, version changes, cleanings and publications x kinds of distribution x foreign content; histories of fetches and cache cleanings",
     "tests build nothing twice, and never with a failure",
     [PK + "api/projects/project.py", PK + "api/pkm.py", CLI + "controllers/prj_controller.py"],
     [("build and publish", PK + "api/projects/project.py:Project.build/publish/is_built_in_default_location"), ("cleaning", PK + "api/projects/project.py:ProjectDirectories.clean_dist"), ("caches", PK + "api/pkm.py:Pkm.clean_cache"), ("command", CLI + "controllers/prj_controller.py:PrjController.publish")],
     ["Project.build", "ProjectDirectories.clean_dist", "PrjController.publish", "Pkm.clean_cache"])

prop("C52", "Reports tell what is there, why, and what is missing",
     "The report of an environment lists each package that the user requested (each package that is installed, when asked) once, with its version, what the user requested of it or the installed packages that require it (with the extras that were requested of them) or that it is an orphan, and exactly those of its dependencies that apply and are not installed; and the scripts with the package they come from. The report of a project lists each dependency and optional dependency as it is required, with the installed version and its group, the locked versions when asked, and the repositories of each context; that of a package lists the matching versions (preferred first), what the project requires of it however it is spelled, and the installed version. Names, requirements, descriptions and paths are printed as they are, whatever characters they hold, and a report changes nothing.",
     ["configurations", "inputs"], "generated environments (requests, extras, markers, missing dependencies, scripts) x projects x lookups, with text that resembles markup",
     "no test runs a report",
     [CLI + "reports/environment_report.py", CLI + "reports/project_report.py", CLI + "reports/package_report.py", CLI + "reports/attached_repository_report.py"],
     [("environments", CLI + "reports/environment_report.py:EnvironmentReport.display"), ("projects", CLI + "reports/project_report.py:ProjectReport.display"), ("packages", CLI + "reports/package_report.py:PackageReport.display"), ("printing", CLI + "reports/report.py:Report")],
     ["EnvironmentReport.display", "ProjectReport.display", "PackageReport.display", "AddedRepositoriesReport.display"])

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(p) + "\n" for p in P))
ids = [p["id"] for p in P]
assert len(set(ids)) == len(ids)
for p in P:
    assert len(p["title"]) <= 80, p["title"]
    for f in p["anchors"]["files"]:
        assert (pathlib.Path("/repo") / f).exists(), f
print(len(P))
