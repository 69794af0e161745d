"""C04: serialization reports every resource dependency of the inputs (contracts shared in serlib.py)."""
from spec import serlib
from spec.serlib import *

ASSUMPTIONS = serlib.ASSUMPTIONS


async def check_list():
    use_aspect("deps")
    await list_case()


async def check_dict():
    use_aspect("deps")
    await dict_case()


async def check_input_object():
    use_aspect("deps")
    await input_object_case()


async def check_unknown():
    use_aspect("deps")
    await unknown_case()


async def check_resource():
    use_aspect("deps")
    await resource_case()


async def check_asset():
    use_aspect("deps")
    await asset_case()


async def check_awaitable():
    use_aspect("deps")
    await awaitable_case()


async def check_output():
    use_aspect("deps")
    await output_case()


async def check_prompt():
    use_aspect("deps")
    await prompt_case()


async def check_bag():
    use_aspect("deps")
    await bag_case()


async def check_whole_native():
    use_aspect("deps")
    await whole_native()


async def check_bag_native():
    use_aspect("deps")
    await bag_native()


HARNESSES = [check_list, check_dict, check_input_object, check_unknown, check_resource, check_asset, check_awaitable, check_output, check_prompt, check_bag]
NATIVE = [check_whole_native, check_bag_native]
BOUNDS = {"check_whole_native": "random inputs of depth 5, 7 declared types", "check_bag_native": "random bags of up to 6 properties, depth 5"}
