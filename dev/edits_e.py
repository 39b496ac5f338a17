C="src/component.rs"; R="src/resource.rs"; W="src/world.rs"; Q="src/query/mod.rs"; L="src/lib.rs"; EN="src/entity.rs"; G="src/group/mod.rs"; SP="src/sparse_set.rs"
GET="""    pub fn get(&self,id : EntityId) -> Option<&T> {"""
E=[
 ("get-outlives", {"P03"}, [(C, GET, GET.replace("&T>","&'a T>"))]),
 ("data-outlives", {"P03"}, [(C, "    pub fn data(&self) -> &[T] {", "    pub fn data(&self) -> &'a [T] {")]),
 ("get-mut-shared", {"P03"}, [(C, "    pub fn get_mut(&mut self,id : EntityId)", "    pub fn get_mut(&self,id : EntityId)")]),
 ("data-mut-shared", {"P03"}, [(C, "    pub fn data_mut(&mut self)", "    pub fn data_mut(&self)")]),
 ("unchecked-static", {"P03"}, [(C, "    pub unsafe fn get_unchecked(&self,id : EntityId) -> &T {", "    pub unsafe fn get_unchecked<'r>(&self,id : EntityId) -> &'r T where T : 'r {")]),
 ("resource-static", {"P03"}, [(W, "    pub fn resource_read<R : Resource>(&self) -> Option<ResourceRead<'_,R>> {", "    pub fn resource_read<'r,R : Resource>(&self) -> Option<ResourceRead<'r,R>> {\n        let this : &'r World = unsafe { &*(self as *const World) };\n        this.resource_read_in()\n    }\n    fn resource_read_in<R : Resource>(&self) -> Option<ResourceRead<'_,R>> {")]),
 ("storage-write-deref", {"P22"}, [(SP, "pub(in crate) struct SparseSet", "pub struct SparseSet"), (C, "pub struct ComponentRead<'a,T> {", "impl<'a,T : Component> Deref for StorageWrite<'a,T> {\n    type Target = SparseSet<EntityId,T>;\n    fn deref(&self) -> &Self::Target { unsafe { &*self.ptr } }\n}\nimpl<'a,T : Component> DerefMut for StorageWrite<'a,T> {\n    fn deref_mut(&mut self) -> &mut Self::Target { unsafe { &mut *self.ptr } }\n}\npub struct ComponentRead<'a,T> {")]),
 ("storage-swap", {"P22"}, [(C, "    pub fn data_mut(&mut self) -> &mut [T] {", "    /// swap\n    pub fn swap(&mut self,a : usize,b : usize) {\n        let s = unsafe { &mut *self.ptr };\n        s.swap_by_index(a,b);\n    }\n    /// data\n    pub fn data_mut(&mut self) -> &mut [T] {")]),
 ("raw-pub", {"P22"}, [(W, "    pub(in crate) fn raw_storage_write", "    pub fn raw_storage_write")]),
 ("groups-pub", {"P22"}, [(W, "    pub(in crate) fn groups(", "    pub fn groups(")]),
 ("sparse-pub", {"P22"}, [(L, "pub(in crate) mod sparse_set;", "pub mod sparse_set;"), (SP, "pub(in crate) struct SparseSet", "pub struct SparseSet")]),
 ("data-mut-vec", {"P22"}, [(C, "    pub fn data_mut(&mut self) -> &mut [T] {\n        let sparse_set = unsafe { &mut *self.ptr };\n        sparse_set.data_mut()", "    pub fn data_mut(&mut self) -> &mut Vec<T> {\n        let sparse_set = unsafe { &mut *self.ptr };\n        sparse_set.data_vec()"), (SP, "    pub fn data_mut(", "    pub fn data_vec(&mut self) -> &mut Vec<T> { &mut self.data }\n    pub fn data_mut(")]),
 ("detach-guard", {"P22"}, [(C, "    pub fn data_mut(&mut self) -> &mut [T] {", "    /// take\n    pub fn take(&mut self,id : EntityId) -> Option<T> {\n        let s = unsafe { &mut *self.ptr };\n        s.remove(id)\n    }\n    /// data\n    pub fn data_mut(&mut self) -> &mut [T] {")]),
 ("component-not-sync", {"P21"}, [(C, "pub trait Component : Send + Sync + 'static {}", "pub trait Component : Send + 'static {}"), (C, "impl<T : Send + Sync + 'static> Component for T {}", "impl<T : Send + 'static> Component for T {}"), (C, "pub trait ComponentStorage : Send + Sync{", "pub trait ComponentStorage : Send{"), (W, "impl Debug for World {", "unsafe impl Sync for World {}\nimpl Debug for World {"), (L, "pub use world::World;", "pub use world::World;")]),
 ("resource-not-sync", {"P21"}, [(R, "pub trait Resource : Send + Sync + 'static {}", "pub trait Resource : Send + 'static {}"), (R, "impl<T : Send + Sync + 'static> Resource for T {}", "impl<T : Send + 'static> Resource for T {}")]),
 ("guard-send", {"P21"}, [(C, "pub struct StorageWrite<'a,T>{", "unsafe impl<'a,T : Send> Send for StorageWrite<'a,T> {}\npub struct StorageWrite<'a,T>{")]),
 ("covariant", {"P01"}, [(R, "_marker : PhantomData<&'a mut T>", "_marker : PhantomData<T>")]),
 ("query-static", {"P03"}, [(Q, "    fn query(world : &'a World) -> Box<(dyn QueryIterator<Item = Self::Item> + 'a)>;", "    fn query(world : &'a World) -> Box<(dyn QueryIterator<Item = Self::Item> + 'a)>;\n    /// q\n    fn query_any<'r>(world : &'r World) -> Box<(dyn QueryIterator<Item = Self::Item> + 'a)> { Self::query(unsafe { &*(world as *const World) }) }")]),
 ("entity-static", {"P03"}, [(EN, "    pub fn component_read<T : Component>(&self) -> Option<ComponentRead<'_,T>> {\n        self.world", "    pub fn component_read<'r,T : Component>(&self) -> Option<ComponentRead<'r,T>> {\n        let w : &'r World = unsafe { &*(self.world as *const World) };\n        w")]),
 ("entity-world-bound", None, [(EN, "    pub fn component_read<T : Component>(&self) -> Option<ComponentRead<'_,T>> {", "    pub fn component_read<T : Component>(&self) -> Option<ComponentRead<'a,T>> {")]),
 ("world-accessor", None, [(EN, "    /// Consume Entity and get an ID", "    /// the world\n    pub fn world(&self) -> &'a World { self.world }\n    /// Consume Entity and get an ID")]),
 ("explicit-lifetimes", None, [(C, "    pub fn data_mut(&mut self) -> &mut [T] {", "    pub fn data_mut<'r>(&'r mut self) -> &'r mut [T] {"), (W, "    pub fn components_read<T : Component>(&self) -> Option<StorageRead<'_,T>> {", "    pub fn components_read<'w,T : Component>(&'w self) -> Option<StorageRead<'w,T>> {"), (Q, "impl<'a,T : Component> Queryable<'a> for &'a T {", "impl<'q,T : Component> Queryable<'q> for &'q T {"), (Q, "    fn query(world : &'a World) -> Box<(dyn QueryIterator<Item = Self::Item> + 'a)> {", "    fn query(world : &'q World) -> Box<(dyn QueryIterator<Item = Self::Item> + 'q)> {")]),
 ("dup-fn", None, [(C, "    pub fn data_mut(&mut self) -> &mut [T] {", "    fn set(&mut self) -> &mut SparseSet<EntityId,T> { unsafe { &mut *self.ptr } }\n    /// data\n    pub fn data_mut(&mut self) -> &mut [T] {")]),
 ("pub-field", {"P22"}, [(C, "pub struct ComponentWrite<'a,T> {\n    id : EntityId", "pub struct ComponentWrite<'a,T> {\n    /// id\n    pub id : EntityId")]),
 ("peek", {"P03"}, [(W, "    /// Get an [Entity](crate::entity::Entity) from an entity id", "    /// peek\n    pub fn peek<T : Component>(&self,id : EntityId) -> Option<&T> {\n        let g = self.components_read::<T>()?;\n        let p = g.get(id)? as *const T;\n        Some(unsafe { &*p })\n    }\n    /// Get an [Entity](crate::entity::Entity) from an entity id")]),
]
