#!/usr/bin/env python3
"""Writes known_findings.jsonl from the tables below (run by hand)."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = [
 ('flatten-extends-schema', ['C01','C02','C03'], 'a struct with #[serde(flatten)] gets the schema z.object(..).extend(z.lazy(..)), which throws in zod 3 on every value (text pinned by the stable test struct_flattening)', 'known/flatten-extends-schema.txt'),
 ('flatten-default', ['C01'], '#[serde(flatten, default)]: the flattened fields are taken as optional although serde still requires them', 'known/flatten-default.txt'),
 ('flatten-in-typescript', ['C03'], 'a flattened map or Option, or a flattened field with default, is `{..} & Map<..>` / `{..} & (T | null | undefined)` in TypeScript, which is not the set of values of the merged object', 'known/flatten-in-typescript.txt'),
 ('empty-object-type', ['C03'], 'a struct or variant none of whose fields is deserialized is `{}` in TypeScript, which also admits primitives and arrays that the schema rejects', 'known/empty-object-type.txt'),
 ('positional-default', ['C01','C02'], 'a positional field with #[serde(default)] is z.<t>().optional() (pinned by stable tests): undefined is accepted but sent as null, which serde refuses; a shorter array, which serde accepts, is rejected', 'known/positional-default.txt'),
 ('optional-content', ['C01','C04'], 'a newtype variant or Result over an Option accepts {} and {Aa: undefined}, which JSON turns into {} and serde refuses', 'known/optional-content.txt'),
 ('adjacent-skipped-content', ['C01'], 'adjacently tagged newtype variant whose field is skipped: serde itself wants the content key that the schema leaves out', 'known/adjacent-skipped-content.txt'),
 ('plain-maps-and-sets', ['C02','C04'], 'maps and sets are z.map / z.set (pinned by stable tests), but the server sends them as plain objects and arrays, which these schemas reject', 'known/plain-maps-and-sets.txt'),
 ('lone-surrogates', ['C04'], 'z.string() accepts strings with lone surrogates, which serde refuses', 'known/lone-surrogates.txt'),
 ('prototype-names', ['C05'], 'a defaulted field whose name is a member of Object.prototype (constructor, toString, ..) cannot be left out: zod 3 reads the inherited member', 'known/prototype-names.txt'),
 ('type-named-array', ['C05'], 'a type whose client name is Array shadows the global Array<..> that Vec refers to', 'known/type-named-array.txt'),
 ('integers-beyond-64-bits', ['C07'], 'u128 and i128 beyond 64 bits as arguments, results and items: requests and responses pass through serde_json::Value, which holds no integer of more than 64 bits', 'known/integers-beyond-64-bits.txt'),
 ('shared-namespace-name', ['C06'], 'members are collected by the name of their namespace: two namespaces with one name in a program, each in a backend of its own, get each other\'s types and methods', 'known/shared-namespace-name.txt'),
 ('member-named-like-namespace', ['C06'], 'a type or method named like its own namespace, or like another one that its namespace refers to, hides that namespace: the references through it do not resolve', 'known/member-named-like-namespace.txt'),
 ('type-and-method', ['C06'], 'a type and a method of one namespace with the same name are both declared under it', 'known/type-and-method.txt'),
 ('type-named-like-global', ['C06'], 'a type named Map, Set, Array, Promise or Store hides the one the module refers to', 'known/type-named-like-global.txt'),
 ('type-of-itself', ['C06'], 'struct T(Option<Box<T>>), whose only JSON is null, is a type alias and a schema that consist of themselves', 'known/type-of-itself.txt'),
 ('shadowed-names', ['C18'], 'the generated code uses String, Option, Some, None, Vec, vec!, format! and std (and async_trait Box) without a path: a declaration in a module that gives one of these names another meaning does not compile', 'known/shadowed-names.txt'),
]
FIXED = [
 (['C01','C02','C03','C04','C05'], 'z.boolean()', 'bool mapped to z.bool(), which does not exist: the module threw while loading'),
 (['C04'], 'infinite numbers', 'f32 and f64 accepted Infinity, which is sent as null'),
 (['C01','C02'], 'struct variants without deserialized fields', 'struct variants whose fields are all skipped accepted nothing serde accepts'),
 (['C01','C02'], 'tuples with skipped fields', 'a tuple with one deserialized field left was described as that field'),
 (['C03'], 'tuple and flattened structs cannot be interfaces', 'interface N [A, B] and interface N {..} & X are not TypeScript'),
 (['C01','C02'], 'transparent structs', 'a transparent struct was described by the wrong field when others are skipped or phantom'),
 (['C02'], 'fields are optional when the struct has a serde default', 'container-level #[serde(default)] was ignored'),
 (['C01','C02','C03'], 'internally tagged newtype variants', 'internally tagged newtype variants had no tag, or extended a lazy schema'),
 (['C05'], 'quote and escape names', 'names that are not identifiers or contain quotes produced broken or different keys'),
 (['C04','C06'], 'built-in types refer to their parameters by name', 'recursive types through Vec, Option, Box, .. overflowed the stack'),
 (['C04'], 'upper and lower bounds of big integers', 'u64/i64/u128/i128/usize/isize accepted numbers outside the Rust type'),
 (['C04'], 'a char is one unicode scalar value', 'char accepted and refused strings by UTF-16 length'),
 (['C02','C04'], 'None is null in JSON', 'Option rejected null, which is what the server sends for None'),
 (['C04'], 'Weak and PhantomData', 'Weak and PhantomData were described as their parameter'),
 (['C04'], 'arrays have a fixed length', '[T; N] accepted any number of elements'),
 (['C04','C07'], 'send maps and sets', 'Map and Set arguments were sent as {}'),
 (['C03'], 'a flattened Result', 'a flattened Result made the whole type a union in which one side lacked the fields of the struct'),
 (['C07','C08'], 'requests without arguments', 'calls of methods without arguments, of renamed namespaces and with integer-keyed maps were refused'),
 (['C07','C08'], 'raw identifiers', 'methods and arguments with raw identifiers got names with r# on the client'),
 (['C04'], 'IP addresses have no zone', 'fe80::1%eth0 was accepted as an IP address'),
 (['C09','C12'], 'a client that is gone before its method returned', 'a client that disconnected while its method was running made the backend task panic: nobody was served any more'),
 (['C11'], 'a stream whose id is used again', 'a stream request with the id of a running stream left the first one running for ever'),
 (['C10'], 'a stream that is always ready', 'a stream that never waits kept every other task from running and could not be cancelled'),
 (['C12','C11'], 'connections shared their stream ids', 'a connection could stop the streams of another one, and the streams of a connection that is gone went on until they next failed to send'),
 (['C14'], 'errors never reached the caller', 'an error response left the promise of its request pending for ever'),
 (['C14','C15','C16'], 'late events of an old connection', 'the close event of a connection that had been given up closed its successor'),
 (['C14','C15','C16'], 'requests made without a connection', 'a request made while there was no connection was lost when the attempt failed'),
 (['C17'], 'a doc comment could end the comment', '*/ in a doc comment ended the comment in the generated module and the rest of it became code'),
 (['C18'], 'attributes of other macros', 'a type with an attribute of another macro that is not a plain list or literal, such as #[diesel(table_name = users)], was refused'),
 (['C06','C18'], 'names that cannot be declared in TypeScript', 'methods, types and namespaces with names that TypeScript reserves, or that are no identifiers, made the whole module unusable; they are refused now'),
 (['C06','C18'], 'reserved in Rust only', 'a type named async, await, dyn or try on the client, or with a combining mark in its name, did not compile'),
 (['C06','C18'], 'two types with the same name on the client', 'two types of a namespace that serde gives the same name were both generated under it'),
 (['C07','C18'], 'namespaces with the same ident', 'a backend of two namespaces whose types have the same ident did not compile, and one of two namespaces of the same name answered only for the first'),
 (['C06','C07'], 'names of methods and arguments hid', 'methods called request or subscribe, and arguments with reserved names or the name of a namespace, broke the functions of the client'),
 (['C17'], 'documentation of the first type', 'the comment of the first type followed the brace of the namespace on its line, and TypeScript attached it to nothing'),
 (['C18'], 'mistaken for others', 'two types of different names, as crate and __crate, were refused as duplicates; an enum with the name as broke the module'),
 (['C18'], 'mention Self', 'arguments and results such as [u8; Self::N] did not compile, as Self was the request'),
 (['C06'], 'without debug assertions', 'the crate did not compile in any release build: its documentation includes a table that the build script only writes with debug assertions'),
 (['C18'], 'could not be imported', 'a type in a module that imports its namespace with use was refused, for want of a name nobody wrote'),
 (['C18'], 'declared in a macro', 'a namespace or backend that a macro_rules macro writes was refused: the generated methods had a self of another macro'),
 (['C18'], 'argument of a macro', 'a stream type that is a $t:ty argument of a macro was taken for no stream'),
 (['C18'], 'had to implement Debug', 'a method whose argument does not implement Debug was refused'),
]
log = subprocess.run(['git', '-C', os.environ.get('ZOD_REPO', '/repo'), 'log', '--format=%h %s'], capture_output=True, text=True).stdout.splitlines()
with open(os.path.join(V, 'known_findings.jsonl'), 'w') as f:
    for i, props, what, case in KNOWN:
        d = {'id': i, 'properties': props, 'status': 'known', 'what': what}
        d['case_file' if isinstance(case, str) else 'cases'] = case
        f.write(json.dumps(d) + '\n')
    for props, sub, what in FIXED:
        c = [l for l in log if sub.lower() in l.lower()]
        assert len(c) == 1, (sub, c)
        h = c[0].split()[0]
        f.write(json.dumps({'id': 'fixed-' + h, 'properties': props, 'status': 'fixed', 'commit': h, 'what': what, 'text': [f'fixed: property={p} {h} {what}' for p in props]}) + '\n')
