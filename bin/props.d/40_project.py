PJ = 'crates/compiler/cairo-m-project/src/'
prop('J01', 'A project is its manifest and the .cm files of its source folder',
 'The manifest of a path is the closest cairom.toml at or above it, also for relative paths; a manifest is read as it stands, and one without a name or an entry point is an error; the modules of a project are exactly the .cm files below its source folder, each under the name its path spells and with the content of its file; the entry point is found with and without `src/` and as an absolute path; a file without a manifest (outside a folder called src) is a project of its own, whatever its name; a workspace has every readable manifest below its root.',
 ['configurations'], 'all folder trees within the bounds',
 'The tests set up one project in one place; which file wins depends on what else lies around it and on how the path was given.',
 [PJ + 'discovery.rs', PJ + 'model.rs', PJ + 'manifest.rs', 'crates/compiler/semantic/src/db.rs'],
 [('search for the manifest', PJ + 'discovery.rs find_project_manifest'), ('standalone files', PJ + 'discovery.rs setup_as_standalone_file'), ('source files and module names', PJ + 'model.rs'), ('crate of a project', 'crates/compiler/semantic/src/db.rs crate_from_project')],
 [E('h_proj_find', reach=['project', 'standalone']), E('h_proj_files'), E('h_proj_entry', reach=['complete', 'incomplete']), E('h_proj_alone'), E('h_proj_workspace')],
 'manifests (or files of a similar name) at any of 5 nested levels, 9 starts given absolutely, relatively, from within and as `.`; 8 places that hold a source file, other files and folders or nothing, in both orders of a directory listing; 6 entry names in 3 forms, each key missing, unknown keys and tables; file names of up to 2 (3) characters from 14 special ones; manifests at 5 places of a workspace.',
 'symbolic links, ignored and hidden files, unreadable files, entry points in folders below src, standalone files in a folder called src.',
 note='The file system is a model of the libc calls the code makes; replays use the real one.')
