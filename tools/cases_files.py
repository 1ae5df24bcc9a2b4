"""Behaviour-preserving and breaking edits of the code that touches files."""
SK, CL = 'skill_cli.py', 'cli.py'
D1, D2, D3 = 'toolset/generate_aout_dashboard.py', 'toolset/generate_dout_dashboard.py', 'toolset/generate_aout_dashboard_3x4.py'
IDS = ['P24', 'P02', 'P05', 'P08', 'P16']
OLD = """            if target_dir.is_symlink() or target_dir.is_file():
                target_dir.unlink()
            else:
                shutil.rmtree(target_dir)
"""
SAVE = """        output_path.parent.mkdir(parents=True, exist_ok=True)
        fig.savefig(output_path, dpi=150, bbox_inches='tight')
"""
COPY = """        if editable:
            target_dir.symlink_to(source_dir, target_is_directory=True)
        else:
            shutil.copytree(source_dir, target_dir)
"""
PRES = "        if target_dir.exists() or target_dir.is_symlink():\n            if not overwrite:"
CASES = [
    ('f-lexists', set(), [(SK, PRES, "        if os.path.lexists(target_dir):\n            if not overwrite:"), (SK, "import shutil\n", "import os\nimport shutil\n")]),
    ('f-present-name', set(), [(SK, PRES, "        present = target_dir.is_symlink() or target_dir.exists()\n        if present and not overwrite:\n            if True:"), (SK, OLD, "        if present:\n" + OLD)]),
    ('f-clear-helper', set(), [(SK, OLD, "            _clear(target_dir)\n"), (SK, "def install_bundled_skills(", "def _clear(path):\n    if path.is_dir() and not path.is_symlink():\n        shutil.rmtree(path)\n    else:\n        path.unlink()\n\n\ndef install_bundled_skills(")]),
    ('f-os-calls', set(), [(SK, "                target_dir.unlink()\n", "                os.remove(target_dir)\n"), (SK, "            target_dir.symlink_to(source_dir, target_is_directory=True)\n", "            os.symlink(source_dir, target_dir, target_is_directory=True)\n"),
                           (SK, "    install_root.mkdir(parents=True, exist_ok=True)\n", "    os.makedirs(install_root, exist_ok=True)\n"), (SK, "import shutil\n", "import os\nimport shutil\n")]),
    ('f-kw-copy', set(), [(SK, "shutil.copytree(source_dir, target_dir)", "shutil.copytree(src=source_dir, dst=target_dir)")]),
    ('f-dest-resolved', set(), [(SK, "    install_root = Path(dest).expanduser()\n    install_root.mkdir", "    install_root = Path(dest).expanduser().resolve()\n    install_root.mkdir")]),
    ('f-joinpath', set(), [(SK, "        target_dir = install_root / skill_name\n        source_dir = bundled_skill_dir(skill_name)\n", "        source_dir = bundled_skill_dir(skill_name)\n        target_dir = install_root.joinpath(skill_name)\n")]),
    ('f-precheck', set(), [(SK, "    installed_paths: list[Path] = []\n\n    for skill_name in resolved_names:\n", "    installed_paths: list[Path] = []\n    if not overwrite:\n        for skill_name in resolved_names:\n            there = install_root / skill_name\n            if there.exists() or there.is_symlink():\n                raise FileExistsError(f'Destination already exists: {there}')\n\n    for skill_name in resolved_names:\n")]),
    ('f-staged', set(), [(SK, "            shutil.copytree(source_dir, target_dir)\n", "            staging = target_dir.with_name(skill_name + '.part')\n            shutil.copytree(source_dir, staging)\n            staging.rename(target_dir)\n")]),
    ('f-install-one', set(), [(SK, COPY, "        _place(source_dir, target_dir, editable)\n"), (SK, "def install_bundled_skills(", "def _place(source, target, editable):\n    if not editable:\n        shutil.copytree(source, target)\n        return\n    target.symlink_to(source, target_is_directory=True)\n\n\ndef install_bundled_skills(")]),
    ('f-while', set(), [(SK, "    for skill_name in resolved_names:\n        target_dir = install_root / skill_name\n        source_dir = bundled_skill_dir(skill_name)\n\n        if", "    i = 0\n    while i < len(resolved_names):\n        skill_name = resolved_names[i]\n        i += 1\n        target_dir = install_root / skill_name\n        source_dir = bundled_skill_dir(skill_name)\n\n        if")]),
    ('f-list-comp', set(), [(SK, "        installed_paths.append(target_dir)\n\n    return installed_paths\n", "\n    return [install_root / name for name in resolved_names]\n")]),
    ('f-status-order', set(), [(SK, "        if target_dir.is_symlink():\n            mode = \"editable-link\"\n            try:\n                synced = target_dir.resolve() == source_dir.resolve()\n            except FileNotFoundError:\n                synced = False\n        elif target_dir.is_dir():\n            mode = \"copy\"\n            synced = _dirs_equal(source_dir, target_dir)\n        elif target_dir.exists():\n            mode = \"non-directory\"\n",
                                     "        if not target_dir.is_symlink():\n            if target_dir.is_dir():\n                mode = \"copy\"\n                synced = _dirs_equal(source_dir, target_dir)\n            elif target_dir.exists():\n                mode = \"non-directory\"\n        else:\n            mode = \"editable-link\"\n            synced = target_dir.resolve() == source_dir.resolve()\n")]),
    ('f-status-append', set(), [(SK, "        rows.append(\n            {\n", "        row = dict(\n            {\n"), (SK, "                \"synced\": synced,\n            }\n        )\n", "                \"synced\": synced,\n            }\n        )\n        rows += [row]\n")]),
    ('f-main-exit', set(), [(SK, "    except (FileExistsError, ValueError) as exc:\n        print(f\"[Error] {exc}\", file=sys.stderr)\n        return 1\n", "    except FileExistsError as exc:\n        print(f\"[Error] {exc}\", file=sys.stderr)\n        return 1\n    except ValueError as exc:\n        print(f\"[Error] {exc}\", file=sys.stderr)\n        return 1\n")]),
    ('f-main-dict', set(), [(SK, "            overwrite=args.force,\n            editable=args.editable,\n        )\n", "            **{'overwrite': args.force, 'editable': args.editable},\n        )\n")]),
    ('f-require', set(), [(SK, "    dest = _require_dest(parser, args.dest)\n", "    dest = args.dest\n    if dest is None:\n        parser.error('--dest is required')\n")]),
    ('f-ex-abs', set(), [(CL, "    dest_dir = Path.cwd() / args.dest\n", "    dest_dir = Path(args.dest).absolute()\n")]),
    ('f-ex-join', set(), [(CL, "    dest_dir = Path.cwd() / args.dest\n", "    dest_dir = Path(os.path.join(os.getcwd(), args.dest))\n"), (CL, "import argparse\n", "import argparse\nimport os\n")]),
    ('f-ex-raise', set(), [(CL, "        print(\"Please remove it or specify a different name.\")\n        sys.exit(1)\n", "        print(\"Please remove it or specify a different name.\")\n        raise SystemExit(1)\n")]),
    ('f-ex-helper', set(), [(CL, "    if dest_dir.exists():\n        print(f\"[Error] Directory '{dest_dir.name}' already exists.\")\n        print(\"Please remove it or specify a different name.\")\n        sys.exit(1)\n", "    _refuse(dest_dir)\n"), (CL, "def copy_examples():", "def _refuse(path):\n    if not path.exists():\n        return\n    print(f\"[Error] Directory '{path.name}' already exists.\")\n    sys.exit(1)\n\n\ndef copy_examples():")]),
    ('f-save-str', set(), [(D1, SAVE, "        output_path.parent.mkdir(parents=True, exist_ok=True)\n        fig.savefig(str(output_path), bbox_inches='tight', dpi=150)\n")]),
    ('f-save-dirname', set(), [(D2, SAVE, "        os.makedirs(os.path.dirname(output_path), exist_ok=True)\n        fig.savefig(output_path, dpi=150, bbox_inches='tight')\n"), (D2, "import numpy as np\n", "import os\nimport numpy as np\n")]),
    ('f-save-helper', set(), [(D3, SAVE, "        _store(fig, output_path)\n"), (D3, "def generate_aout_dashboard(", "def _store(figure, where):\n    where.parent.mkdir(parents=True, exist_ok=True)\n    figure.savefig(where, dpi=150, bbox_inches='tight')\n\n\ndef generate_aout_dashboard(")]),
    ('f-save-truthy', set(), [(D1, "    if output_path is not None:\n        output_path = Path(output_path)\n", "    target = None if output_path is None else Path(output_path)\n    if target is not None:\n        output_path = target\n")]),
    # ---- breaking
    ('f-exists-only', {'P24'}, [(SK, PRES, "        if target_dir.exists():\n            if not overwrite:")]),
    ('f-dir-first', {'P24'}, [(SK, OLD, "            if target_dir.is_dir():\n                shutil.rmtree(target_dir)\n            else:\n                target_dir.unlink()\n")]),
    ('f-resolve-target', {'P24'}, [(SK, "        target_dir = install_root / skill_name\n        source_dir = bundled_skill_dir(skill_name)\n", "        target_dir = (install_root / skill_name).resolve()\n        source_dir = bundled_skill_dir(skill_name)\n")]),
    ('f-merge', {'P24'}, [(SK, OLD, "            if target_dir.is_symlink() or target_dir.is_file():\n                target_dir.unlink()\n"), (SK, "shutil.copytree(source_dir, target_dir)", "shutil.copytree(source_dir, target_dir, dirs_exist_ok=True)")]),
    ('f-force-editable', {'P24'}, [(SK, "            overwrite=args.force,\n", "            overwrite=args.force or args.editable,\n")]),
    ('f-overwrite-link', {'P24'}, [(SK, "            if not overwrite:\n", "            if not overwrite and not target_dir.is_symlink():\n")]),
    ('f-wipe-root', {'P24'}, [(SK, "                shutil.rmtree(target_dir)\n", "                shutil.rmtree(install_root)\n                install_root.mkdir(parents=True)\n")]),
    ('f-status-mkdir', {'P24'}, [(SK, "    rows: list[dict[str, str | bool]] = []\n", "    rows: list[dict[str, str | bool]] = []\n    install_root.mkdir(parents=True, exist_ok=True)\n")]),
    ('f-status-broken', {'P24'}, [(SK, "        installed = target_dir.exists() or target_dir.is_symlink()\n", "        installed = target_dir.exists()\n")]),
    ('f-late-names', {'P24'}, [(SK, "    resolved_names = resolve_skill_names(\n        names,\n        install_dev=install_dev,\n        install_all=install_all,\n    )\n    install_root = Path(dest).expanduser()\n    install_root.mkdir(parents=True, exist_ok=True)\n", "    install_root = Path(dest).expanduser()\n    install_root.mkdir(parents=True, exist_ok=True)\n    Path(install_root / '.adctoolbox').touch()\n    resolved_names = resolve_skill_names(\n        names,\n        install_dev=install_dev,\n        install_all=install_all,\n    )\n")]),
    ('f-default-dest', {'P24'}, [(SK, "    dest = _require_dest(parser, args.dest)\n", "    dest = args.dest if args.dest is not None else Path.home() / '.codex' / 'skills'\n")]),
    ('f-main-zero', {'P24'}, [(SK, "        print(f\"[Error] {exc}\", file=sys.stderr)\n        return 1\n", "        print(f\"[Error] {exc}\", file=sys.stderr)\n")]),
    ('f-copy-swap', {'P24'}, [(SK, "        if editable:\n            target_dir.symlink_to", "        if not editable:\n            target_dir.symlink_to")]),
    ('f-ex-merge', {'P24'}, [(CL, "        print(\"Please remove it or specify a different name.\")\n        sys.exit(1)\n", "        print(\"Updating it.\")\n"), (CL, "shutil.copytree(src_dir, dest_dir, ", "shutil.copytree(src_dir, dest_dir, dirs_exist_ok=True,")]),
    ('f-ex-wipe', {'P24'}, [(CL, "        print(\"Please remove it or specify a different name.\")\n        sys.exit(1)\n", "        shutil.rmtree(dest_dir)\n")]),
    ('f-save-default', {'P24'}, [(D1, "    if output_path is not None:\n", "    output_path = output_path or 'dashboard.png'\n    if output_path is not None:\n")]),
    ('f-save-suffix', {'P24'}, [(D2, "        output_path = Path(output_path)\n", "        output_path = Path(output_path).with_suffix('.png')\n")]),
    ('f-save-cwd', {'P24'}, [(D3, "        fig.savefig(output_path, dpi=150", "        fig.savefig(output_path.name, dpi=150")]),
    ('f-cache-file', {'P24'}, [('fundamentals/fit_sine_4param.py', "    return ", "    np.savetxt('fit.txt', [1.0])\n    return ")]),
]
