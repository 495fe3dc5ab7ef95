// Instantiates the templates of the script VM that hosts use, so that their bodies are analysed (never linked or run).
#include <zenkit/DaedalusVm.hh>
#include <zenkit/addon/daedalus.hh>

namespace zenkit {
	using NpcRef = std::shared_ptr<INpc>;
	using AnyRef = std::shared_ptr<DaedalusInstance>;
	using Vm = DaedalusVm;
	using SV = std::string_view;

#define EXT(R, ...)                                                                                                    \
	template void Vm::register_external(SV, std::function<R(__VA_ARGS__)> const&);                                       \
	template void Vm::override_function(SV, std::function<R(__VA_ARGS__)> const&);

	EXT(void)
	EXT(void, int32_t)
	EXT(int32_t, int32_t, float)
	EXT(float, SV)
	EXT(bool, bool, DaedalusFunction)
	EXT(std::string, DaedalusSymbol*)
	EXT(NpcRef, NpcRef, int32_t)
	EXT(AnyRef, AnyRef)
	EXT(int32_t, INpc*)
	EXT(int32_t, DaedalusInstance*)
	EXT(float)

	template IgnoreReturnValue Vm::call_function<IgnoreReturnValue>(SV);
	template IgnoreReturnValue Vm::call_function<IgnoreReturnValue>(DaedalusSymbol const*);
	template void Vm::call_function<void>(DaedalusSymbol const*);
	template int32_t Vm::call_function<int32_t, int32_t, float>(SV, int32_t, float);
	template int32_t Vm::call_function<int32_t, int32_t, float>(DaedalusSymbol const*, int32_t, float);
	template float Vm::call_function<float, bool, SV>(DaedalusSymbol const*, bool, SV);
	template std::string Vm::call_function<std::string, NpcRef>(DaedalusSymbol const*, NpcRef);
	template NpcRef Vm::call_function<NpcRef, SV, AnyRef, int32_t>(DaedalusSymbol const*, SV, AnyRef, int32_t);
	template IgnoreReturnValue Vm::call_function<IgnoreReturnValue, float, float>(DaedalusSymbol const*, float, float);

	template NpcRef Vm::init_instance<INpc>(SV);
	template NpcRef Vm::init_instance<INpc>(DaedalusSymbol*);
	template void Vm::init_instance<INpc>(NpcRef const&, SV);
	template void Vm::init_instance<INpc>(NpcRef const&, DaedalusSymbol*);
	template NpcRef Vm::allocate_instance<INpc>(SV);
	template NpcRef Vm::allocate_instance<INpc>(DaedalusSymbol*);
	template void Vm::allocate_instance<INpc>(NpcRef const&, SV);
	template void Vm::allocate_instance<INpc>(NpcRef const&, DaedalusSymbol*);

	template void DaedalusScript::register_member(SV, std::string INpc::*);
	template void DaedalusScript::register_member(SV, int32_t INpc::*);
	template void DaedalusScript::register_member(SV, NpcType INpc::*);
	template void DaedalusScript::register_member(SV, float ICamera::*);
	template void DaedalusScript::register_member(SV, std::string (INpc::*)[5]);
	template void DaedalusScript::register_member(SV, int32_t (INpc::*)[8]);
	template void DaedalusScript::register_member(SV, float (IMenuItem::*)[4]);
} // namespace zenkit
