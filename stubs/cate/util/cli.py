"""Stand-in for cate.util.cli (cate is not installed here): the part of its documented behaviour dedop uses.

A command either returns normally (status 0) or raises (CommandError, usage error or any other exception),
which gives a non-zero status.
"""
import argparse
import sys
from abc import ABCMeta, abstractmethod


class CommandError(Exception):
    def __init__(self, cause, *args):
        super().__init__(str(cause), *args)
        self.cause = cause


class Command(metaclass=ABCMeta):
    @classmethod
    def name(cls):
        return None

    @classmethod
    def parser_kwargs(cls):
        return {}

    @classmethod
    def configure_parser(cls, parser):
        pass

    @abstractmethod
    def execute(self, command_args):
        pass

    @classmethod
    def new_monitor(cls):
        from dedop.util.monitor import ConsoleMonitor
        return ConsoleMonitor(stay_in_line=True, progress_bar_size=30)


class SubCommandCommand(Command, metaclass=ABCMeta):
    @classmethod
    def configure_parser(cls, parser):
        subparsers = parser.add_subparsers()
        cls.configure_parser_and_subparsers(parser, subparsers)

    @classmethod
    def configure_parser_and_subparsers(cls, parser, subparsers):
        pass

    def execute(self, command_args):
        return command_args.sub_command_function(command_args)


class _Exit(Exception):
    def __init__(self, status, message):
        self.status, self.message = status, message


class _Parser(argparse.ArgumentParser):
    def exit(self, status=0, message=None):
        raise _Exit(status, message)


def _make_parser(name, description, version, registry, license_text=None, docs_url=None):
    parser = _Parser(prog=name, description=description)
    parser.add_argument('--version', action='version', version=version)
    parser.add_argument('--traceback', action='store_true')
    subparsers = parser.add_subparsers(dest='command_name', metavar='COMMAND', parser_class=_Parser)
    for cls in registry:
        p = subparsers.add_parser(cls.name(), **cls.parser_kwargs())
        cls.configure_parser(p)
        p.set_defaults(command_class=cls)
    return parser


#: the last exception that made a command fail (for the harness)
LAST_ERROR = None


def run_main(name, description, version, command_registry, license_text=None, docs_url=None, error_message_trimmer=None,
             args=None):
    global LAST_ERROR
    LAST_ERROR = None
    if args is None:
        args = sys.argv[1:]
    parser = _make_parser(name, description, version, command_registry, license_text, docs_url)
    try:
        ns = parser.parse_args(args)
        if ns.command_name and ns.command_class:
            ns.command_class().execute(ns)
        else:
            parser.print_help()
    except _Exit as e:
        return e.status or 0
    except Exception as e:
        LAST_ERROR = e
        sys.stderr.write('%s: error: %s\n' % (name, e))
        return 1
    return 0
